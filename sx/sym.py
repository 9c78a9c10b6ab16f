"""Symbolic values.  Every proxy pretends (through __class__) to be an instance
of the Python / numpy class it stands for and carries z3 terms instead of data."""
import operator
import struct
import unicodedata
import numpy as np
import z3
from .engine import engine, PathAbort

FP64 = z3.Float64()
FP32 = z3.Float32()
FP16 = z3.FPSort(5, 11)
CH = 21                      # bits of a code point
INT_BITS = 200               # |n| < 2**INT_BITS for symbolic Python ints
MAX_DIGITS = 61


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zbool(x):
    """anything used as condition -> z3 Bool or python bool"""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is bool or isinstance(x, z3.BoolRef):
        return x
    return bool(x)


def zand(*xs):
    out = []
    for x in xs:
        x = zbool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*xs):
    out = []
    for x in xs:
        x = zbool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(x):
    x = zbool(x)
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def branch(x):
    x = zbool(x)
    if x is True or x is False:
        return x
    return engine().branch(x)


def fresh(prefix, sort):
    e = engine()
    e._fresh = getattr(e, "_fresh", 0)
    # deterministic per path: counter is reset by the harness at path start
    e._fresh += 1
    return z3.Const("%s!%d" % (prefix, e._fresh), sort)


# ---------------------------------------------------------------- bool
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return engine().branch(self.e)

    def __and__(self, o):
        return mkbool(zand(self, o))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(zor(self, o))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(znot(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return mkbool(self.e if o else z3.Not(self.e))
        return bool(self) == o

    def __ne__(self, o):
        return mkbool(znot(self == o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SymBool>"

    def __index__(self):
        return int(bool(self))
    __int__ = __index__


def mkbool(x):
    x = zbool(x)
    if x is True or x is False:
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SymBool(x)


# ---------------------------------------------------------------- ints
def zabs(n):
    return z3.If(n >= 0, n, -n)


def int_expr(x):
    """python int, numpy integer, bool or SymInt -> int or z3 Int"""
    if type(x) in (SymInt, SymBitLen):
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return int(x)


def mkint(e, cls=int):
    if is_z3(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            e = e.as_long()
    if not is_z3(e):
        return int(e) if cls is int else cls(e)
    return SymInt(e, cls)


def is_int_like(x):
    return type(x) in (SymInt, SymBitLen, SymBool) or (isinstance(x, (int, np.integer, np.bool_)) and not is_sym(x))


def decimal_length(n):
    """number of characters of str(n)"""
    if not is_z3(n):
        return len(str(n))
    a = zabs(n)
    total = z3.If(n < 0, z3.IntVal(2), z3.IntVal(1))
    p = 10
    for _ in range(MAX_DIGITS - 1):
        total = total + z3.If(a >= p, z3.IntVal(1), z3.IntVal(0))
        p *= 10
    return total


def left_aligned(n):
    """abs(n) scaled so that its leading digit is at position MAX_DIGITS"""
    a = zabs(n) if is_z3(n) else abs(n)
    if not is_z3(n):
        return a * 10 ** (MAX_DIGITS - len(str(a)))
    out = a
    for d in range(MAX_DIGITS, 0, -1):
        out = z3.If(a < 10 ** d, a * (10 ** (MAX_DIGITS - d)), out) if d < MAX_DIGITS else a
    return out


def dec_lt(n, m):
    """str(n) < str(m), exact for |n|,|m| < 10**MAX_DIGITS"""
    def neg(x):
        return (x < 0) if is_z3(x) else bool(x < 0)
    ln, lm = left_aligned(n), left_aligned(m)
    an = zabs(n) if is_z3(n) else abs(n)
    am = zabs(m) if is_z3(m) else abs(m)
    body = zor(mk(ln < lm), zand(mk(ln == lm), mk(an < am)))
    return zor(zand(neg(n), znot(neg(m))), zand(zor(zand(neg(n), neg(m)), zand(znot(neg(n)), znot(neg(m)))), body))


def mk(x):
    return x


def representable(n, mant=53):
    """n exactly representable as binary float with mant bits (no overflow in range)"""
    if not is_z3(n):
        try:
            return int(float(n)) == n if mant == 53 else int(np.float32(n)) == n
        except (OverflowError, ValueError):
            return False
    a = zabs(n)
    alts = [a <= 2 ** mant]
    for k in range(1, INT_BITS - mant + 1):
        alts.append(z3.And(a <= 2 ** (mant + k), n % (2 ** k) == 0))
    return z3.Or(*alts)


class SymInt:
    __slots__ = ("e", "cls")

    def __init__(self, e, cls=int):
        self.e = e
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    # numpy scalar interface
    @property
    def dtype(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'int' object has no attribute 'dtype'")
        return scalar_dtype(self.cls)

    def __getattr__(self, name):
        if name.startswith("__array") or not issubclass(self.cls, np.generic):
            raise AttributeError("'%s' object has no attribute '%s'" % (self.cls.__name__, name))
        if name in ("ndim",):
            return 0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        return getattr(self.concrete("numpy scalar attribute " + name), name)

    def item(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'int' object has no attribute 'item'")
        if self.cls is np.bool_:
            return branch(self.e != 0)
        return mkint(self.e)

    def concrete(self, why="SymInt"):
        v = engine().concretize(self.e, "concretised: " + why).as_long()
        return v if self.cls is int else self.cls(v)

    def bit_length(self):
        return SymBitLen(self.e)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __index__(self):
        return int(self.concrete("int index"))

    def __int__(self):
        return int(self.concrete("int()"))

    def __float__(self):
        return float(self.concrete("float(int)"))

    def __complex__(self):
        return complex(self.concrete("complex(int)"))

    def __bool__(self):
        return branch(self.e != 0)

    def __hash__(self):
        return 7

    def __repr__(self):
        return repr(self.concrete("repr")) if engine() else "<SymInt>"

    def __str__(self):
        return str(self.concrete("str")) if engine() else "<SymInt>"

    def __format__(self, spec):
        return format(self.concrete("format"), spec)

    def _cmp(self, o, op):
        if is_int_like(o):
            oe = int_expr(o)
            return mkbool({"lt": self.e < oe, "le": self.e <= oe, "gt": self.e > oe, "ge": self.e >= oe}[op])
        if type(o) is float:
            import math
            if o != o:
                return False
            if o in (math.inf, -math.inf):
                return (o > 0) == (op in ("lt", "le"))
            f = math.floor(o)
            if f == o:
                return self._cmp(int(o), op)
            return mkbool({"lt": self.e <= f, "le": self.e <= f, "gt": self.e > f, "ge": self.e > f}[op])
        if is_sym(o) or isinstance(o, np.generic):
            return getattr(self.concrete("comparison"), "__%s__" % op)(concrete(o))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")

    def __eq__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(r)

    def __ne__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(znot(r))

    def _arith(self, o, fn, name):
        if is_int_like(o) and type(o) is not SymBool:
            if self.cls is int and (type(o) is SymInt and o.cls is int or type(o) in (int, bool)):
                return mkint(fn(self.e, int_expr(o)))
        if is_sym(o) or isinstance(o, (int, float, complex, np.generic)):
            return getattr(self.concrete(name), name)(concrete(o))
        return NotImplemented

    def __add__(self, o): return self._arith(o, lambda a, b: a + b, "__add__")
    def __radd__(self, o): return self._arith(o, lambda a, b: b + a, "__radd__")
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b, "__sub__")
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a, "__rsub__")
    def __neg__(self): return mkint(-self.e, self.cls)
    def __pos__(self): return self
    def __abs__(self): return mkint(zabs(self.e), self.cls)
    def __invert__(self): return mkint(-self.e - 1, self.cls)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and not is_sym(o):
            return o * int(self)
        return self._arith(o, lambda a, b: a * b, "__mul__")
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0 and self.cls is int:
            return mkint(self.e / o)
        return self._arith_c(o, "__floordiv__")

    def __mod__(self, o):
        if type(o) is int and o > 0 and self.cls is int:
            return mkint(self.e % o)
        return self._arith_c(o, "__mod__")

    def _arith_c(self, o, name):
        return getattr(self.concrete(name), name)(concrete(o))

    def __rfloordiv__(self, o): return self._arith_c(o, "__rfloordiv__")
    def __rmod__(self, o): return self._arith_c(o, "__rmod__")
    def __truediv__(self, o): return self._arith_c(o, "__truediv__")
    def __rtruediv__(self, o): return self._arith_c(o, "__rtruediv__")
    def __pow__(self, o): return self._arith_c(o, "__pow__")
    def __rpow__(self, o): return self._arith_c(o, "__rpow__")

    def __rshift__(self, o):
        if type(o) is int and self.cls is int:
            return mkint(self.e / (2 ** o))
        return self._arith_c(o, "__rshift__")

    def __lshift__(self, o):
        if type(o) is int and self.cls is int:
            return mkint(self.e * (2 ** o))
        return self._arith_c(o, "__lshift__")

    def __rrshift__(self, o): return self._arith_c(o, "__rrshift__")
    def __rlshift__(self, o): return self._arith_c(o, "__rlshift__")

    def __and__(self, o):
        if type(o) is int and self.cls is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return self._arith_c(o, "__and__")
    __rand__ = __and__
    def __or__(self, o): return self._arith_c(o, "__or__")
    def __xor__(self, o): return self._arith_c(o, "__xor__")

    def to_bytes(self, *a, **k):
        return self.concrete("to_bytes").to_bytes(*a, **k)

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


class SymBitLen(SymInt):
    """n.bit_length(): compares with constants without building the sum"""
    __slots__ = ("n",)

    def __init__(self, n):
        a = zabs(n)
        total = z3.IntVal(0)
        for k in range(INT_BITS):
            total = total + z3.If(a >= 2 ** k, z3.IntVal(1), z3.IntVal(0))
        SymInt.__init__(self, total, int)
        self.n = n

    def _cmp(self, o, op):
        if type(o) is int:
            if o < 0:
                return op in ("gt", "ge")
            a = zabs(self.n)
            return mkbool({"gt": a >= 2 ** o, "le": a < 2 ** o,
                           "ge": a >= 2 ** (o - 1) if o else z3.BoolVal(True),
                           "lt": a < 2 ** (o - 1) if o else z3.BoolVal(False)}[op])
        return SymInt._cmp(SymInt(self.e), o, op)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")


# ---------------------------------------------------------------- floats
class IntF:
    """float that is the (rounded) value of a symbolic integer"""
    __slots__ = ("n", "mant")

    def __init__(self, n, mant=53):
        self.n = n
        self.mant = mant


def fp_val(x, sort=FP64):
    """python float -> exact z3 FP constant (keeps sign of zero, canonical NaN)"""
    if x != x:
        return z3.fpNaN(sort)
    if sort is FP64:
        bits = struct.unpack("<Q", struct.pack("<d", float(x)))[0]
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), sort))
    bits = struct.unpack("<I", struct.pack("<f", float(x)))[0]
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 32), sort))


def fp_to_py(v):
    """z3 FP numeral -> python float"""
    v = z3.simplify(v)
    if v.isNaN():
        return float("nan")
    bv = z3.simplify(z3.fpToIEEEBV(v))
    n = bv.as_long()
    if v.sort() == FP64:
        return struct.unpack("<d", struct.pack("<Q", n))[0]
    if v.sort() == FP32:
        return struct.unpack("<f", struct.pack("<I", n))[0]
    return float(np.array(n, "u2").view("f2"))


def sort_of_float(cls):
    return {4: FP32, 2: FP16}.get(scalar_dtype(cls).itemsize, FP64)


def scalar_dtype(cls):
    """dtype numpy gives to an instance of cls"""
    if not issubclass(cls, np.generic):
        for c, d in ((int, "i8"), (float, "f8"), (complex, "c16")):
            if issubclass(cls, c):
                return np.dtype(d)
    return np.dtype(cls)


def is_fp_const(e):
    return z3.is_fp_value(e)


def mkfloat(e, cls=float):
    if isinstance(e, IntF):
        if not is_z3(e.n):
            return cls(e.n)
        return SymFloat(e, cls)
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        v = fp_to_py(e)
        return v if cls is float else cls(v)
    return SymFloat(e, cls)


class SymFloat:
    __slots__ = ("e", "cls")

    def __init__(self, e, cls=float):
        self.e = e
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    @property
    def dtype(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'float' object has no attribute 'dtype'")
        return scalar_dtype(self.cls)

    def __getattr__(self, name):
        if name.startswith("__array") or not issubclass(self.cls, np.generic):
            raise AttributeError("'%s' object has no attribute '%s'" % (self.cls.__name__, name))
        if name in ("ndim",):
            return 0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        return getattr(self.concrete("numpy scalar attribute " + name), name)

    def item(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'float' object has no attribute 'item'")
        if isinstance(self.e, IntF):
            return mkfloat(self.e)
        return mkfloat(as_fp64(self.e))

    def concrete(self, why="SymFloat"):
        if isinstance(self.e, IntF):
            n = engine().concretize(self.e.n, "concretised: " + why).as_long()
            v = float(n) if self.e.mant == 53 else float(np.float32(n))
        else:
            v = fp_to_py(engine().concretize(self.e, "concretised: " + why))
        return v if self.cls is float else self.cls(v)

    def __float__(self):
        return float(self.concrete("float()"))

    def __int__(self):
        return int(self.concrete("int(float)"))

    def __bool__(self):
        if isinstance(self.e, IntF):
            return branch(self.e.n != 0)
        return branch(z3.Not(z3.fpIsZero(self.e)))

    def __hash__(self):
        return 7

    def __repr__(self):
        return repr(self.concrete("repr")) if engine() else "<SymFloat>"

    def __format__(self, spec):
        return format(self.concrete("format"), spec)

    def is_integer(self):
        return self.concrete("is_integer").is_integer()

    def hex(self):
        return self.concrete("hex").hex()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __eq__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(r)

    def __ne__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(znot(r))

    def _cmp(self, o, fn, name):
        a = self.e
        if not isinstance(a, IntF):
            a = as_fp64(a)
            if type(o) in (float, np.float64):
                return mkbool(fn(a, fp_val(o)))
            if type(o) is int and float(o) == o:
                return mkbool(fn(a, fp_val(float(o))))
            if type(o) is SymFloat and not isinstance(o.e, IntF):
                return mkbool(fn(a, as_fp64(o.e)))
        return getattr(self.concrete("comparison"), name)(concrete(o))

    def __lt__(self, o): return self._cmp(o, z3.fpLT, "__lt__")
    def __le__(self, o): return self._cmp(o, z3.fpLEQ, "__le__")
    def __gt__(self, o): return self._cmp(o, z3.fpGT, "__gt__")
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ, "__ge__")

    def __neg__(self):
        if isinstance(self.e, IntF):
            return -self.concrete("neg")
        return mkfloat(z3.fpNeg(self.e), self.cls)

    def _ar(self, o, name):
        return getattr(self.concrete(name), name)(concrete(o))

    def __add__(self, o): return self._ar(o, "__add__")
    def __radd__(self, o): return self._ar(o, "__radd__")
    def __sub__(self, o): return self._ar(o, "__sub__")
    def __rsub__(self, o): return self._ar(o, "__rsub__")
    def __mul__(self, o): return self._ar(o, "__mul__")
    def __rmul__(self, o): return self._ar(o, "__rmul__")
    def __truediv__(self, o): return self._ar(o, "__truediv__")
    def __rtruediv__(self, o): return self._ar(o, "__rtruediv__")

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


def as_fp64(e):
    if e.sort() == FP64:
        return e
    return z3.fpFPToFP(z3.RNE(), e, FP64)


class SymComplex:
    """re/im are raw float terms (z3 FP64, IntF or python float)"""
    __slots__ = ("re", "im", "cls")

    def __init__(self, re, im, cls=complex):
        self.re, self.im, self.cls = re, im, cls

    @property
    def __class__(self):
        return self.cls

    @property
    def dtype(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'complex' object has no attribute 'dtype'")
        return scalar_dtype(self.cls)

    def __getattr__(self, name):
        if name.startswith("__array") or not issubclass(self.cls, np.generic):
            raise AttributeError("'%s' object has no attribute '%s'" % (self.cls.__name__, name))
        if name == "ndim":
            return 0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        return getattr(self.concrete("numpy scalar attribute " + name), name)

    def item(self):
        if not issubclass(self.cls, np.generic):
            raise AttributeError("'complex' object has no attribute 'item'")
        return SymComplex(raw64(self.re), raw64(self.im))

    @property
    def real(self):
        return mkfloat_raw(self.re)

    @property
    def imag(self):
        return mkfloat_raw(self.im)

    def concrete(self, why="SymComplex"):
        return self.cls(complex(float(concrete(mkfloat_raw(self.re))), float(concrete(mkfloat_raw(self.im)))))

    def __complex__(self):
        return complex(self.concrete())

    def __bool__(self):
        return bool(self.concrete())

    def __hash__(self):
        return 7

    def __repr__(self):
        return repr(self.concrete("repr")) if engine() else "<SymComplex>"

    def __eq__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(r)

    def __ne__(self, o):
        r = num_eq(self, o)
        return r if r is NotImplemented else mkbool(znot(r))

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


def raw64(r):
    if isinstance(r, (IntF, float)):
        return r
    return as_fp64(r)


def mkfloat_raw(r, cls=float):
    if isinstance(r, float):
        return cls(r) if cls is not float else r
    return mkfloat(r, cls)


def float_raw(x):
    """float-like -> raw (z3 FP / IntF / python float)"""
    if type(x) is SymFloat:
        return x.e
    return float(x)


def raw_feq(a, b, bits=False):
    """equality of raw floats; bits: identity of the value (NaN==NaN, 0.0!=-0.0)"""
    if isinstance(a, float) and isinstance(b, float):
        if bits:
            return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
        return a == b
    if isinstance(a, IntF) or isinstance(b, IntF):
        if isinstance(a, IntF) and isinstance(b, IntF):
            if a.mant == b.mant and (a.n is b.n or (is_z3(a.n) and is_z3(b.n) and a.n.eq(b.n))):
                return True
        if isinstance(b, IntF) and not isinstance(a, IntF):
            a, b = b, a
        if isinstance(b, float):
            if b != b or b in (float("inf"), float("-inf")) or b != int(b):
                return False
            if bits and b == 0 and struct.pack("<d", b) != struct.pack("<d", 0.0):
                return False
            if abs(b) < 2 ** 53:
                return a.n == int(b)
        if isinstance(b, IntF) and engine().implied(zand(representable(a.n, a.mant), representable(b.n, b.mant))):
            return a.n == b.n
        x = concrete(mkfloat(a))
        y = concrete(mkfloat_raw(b))
        return raw_feq(float(x), float(y), bits)
    if isinstance(a, float):
        a = fp_val(a)
    if isinstance(b, float):
        b = fp_val(b)
    a, b = as_fp64(a), as_fp64(b)
    if bits:
        return a == b
    return z3.fpEQ(a, b)


def is_num(x):
    return type(x) in (SymInt, SymBitLen, SymFloat, SymComplex, SymBool) or isinstance(x, (int, float, complex, np.number, np.bool_))


def num_eq(a, b):
    """python numeric == over all numeric kinds"""
    if not is_num(a) or not is_num(b):
        return NotImplemented if not is_sym_str(b) else False
    if is_int_like(a) and is_int_like(b):
        r = int_expr(a) == int_expr(b)
        return r
    ca, cb = is_cplx(a), is_cplx(b)
    if ca or cb:
        ar, ai = cplx_parts(a)
        br, bi = cplx_parts(b)
        return zand(mixed_eq(ar, br), mixed_eq(ai, bi))
    return mixed_eq(a, b)


def is_cplx(x):
    return type(x) is SymComplex or (not is_sym(x) and isinstance(x, (complex, np.complexfloating)))


def cplx_parts(x):
    if type(x) is SymComplex:
        return mkfloat_raw(x.re), mkfloat_raw(x.im)
    if is_cplx(x):
        return float(x.real), float(x.imag)
    return x, 0.0


def mixed_eq(a, b):
    """real numbers: int-like or float-like"""
    if is_int_like(a) and is_int_like(b):
        return int_expr(a) == int_expr(b)
    if is_int_like(a):
        a, b = b, a
    if is_int_like(b):
        fa = float_raw(a)
        ib = int_expr(b)
        if isinstance(fa, IntF):
            if is_z3(ib) and is_z3(fa.n) and fa.n.eq(ib):
                return representable(ib, fa.mant)
            if engine().implied(representable(fa.n, fa.mant)):
                return fa.n == ib
            x = concrete(mkfloat(fa))
            return bool(float(x) == (concrete(b) if is_sym(b) else int(b)))
        if isinstance(fa, float):
            if fa != fa or fa in (float("inf"), float("-inf")) or fa != int(fa):
                return False
            return ib == int(fa)
        if not is_z3(ib):
            try:
                if int(float(ib)) != ib:
                    return False
            except OverflowError:
                return False
            return z3.fpEQ(as_fp64(fa), fp_val(float(ib)))
        return bool(concrete(a) == concrete(b))
    return raw_feq(float_raw(a), float_raw(b))


# ---------------------------------------------------------------- text
class Opaque:
    """rendering of a symbolic value whose characters are not spelled out.

    kind 'dec':   decimal rendering of an int term
    kind 'repr':  repr() of a float / complex proxy
    kind 'pickle': pickle of an object
    """
    __slots__ = ("kind", "payload", "length", "first", "alphabet")

    def __init__(self, kind, payload, length, first=None, alphabet=None):
        self.kind, self.payload, self.length = kind, payload, length
        self.first, self.alphabet = first, alphabet

    def same(self, o):
        if self.kind != o.kind:
            return None
        if self.kind == "dec":
            return self.payload == o.payload
        if self.payload is o.payload:
            return True
        if self.kind == "repr":
            return same_number(self.payload, o.payload)
        return None


def same_number(a, b):
    """a and b are the same number with the same class (NaN same as NaN)"""
    if a.__class__ is not b.__class__:
        return False
    if is_cplx(a):
        ar, ai = (a.re, a.im) if type(a) is SymComplex else (float(a.real), float(a.imag))
        br, bi = (b.re, b.im) if type(b) is SymComplex else (float(b.real), float(b.imag))
        return zand(raw_feq(ar, br, True), raw_feq(ai, bi, True))
    return raw_feq(float_raw(a), float_raw(b), True)


def dec_opaque(n):
    return Opaque("dec", n, decimal_length(n), first=frozenset("-0123456789"), alphabet=frozenset("-0123456789"))


def repr_opaque(x):
    L = fresh("reprlen", z3.IntSort())
    engine().assume(z3.And(L >= 3, L <= 60))
    if is_cplx(x):
        return Opaque("repr", x, L, first=frozenset("(-0123456789in"), alphabet=frozenset("()+-.0123456789einfaj"))
    return Opaque("repr", x, L, first=frozenset("-0123456789in"), alphabet=frozenset("+-.0123456789einfa"))


def part_eq(a, b):
    """two characters / bytes"""
    if is_z3(a) or is_z3(b):
        return a == b
    return a == b


def plain(parts):
    for p in parts:
        if isinstance(p, Opaque):
            return False
    return True


class SymSeq:
    """common part of SymStr and SymBytes"""
    __slots__ = ("parts", "cls")

    def __init__(self, parts, cls):
        self.parts = tuple(parts)
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    def length(self):
        """int or z3 Int"""
        total = 0
        sym = None
        for p in self.parts:
            if isinstance(p, Opaque):
                sym = p.length if sym is None else sym + p.length
            else:
                total += 1
        if sym is None:
            return total
        return sym + total if total else sym

    def __len__(self):
        n = self.length()
        if is_z3(n):
            return engine().concretize(n, "concretised: len of opaque string").as_long()
        return n

    def __bool__(self):
        for p in self.parts:
            if not isinstance(p, Opaque):
                return True
        return any(True for p in self.parts)   # renderings are never empty

    def __hash__(self):
        return 7

    def need_plain(self, why):
        """make every part a character: opaque renderings are concretised"""
        if plain(self.parts):
            return self.parts
        out = []
        for p in self.parts:
            if isinstance(p, Opaque):
                out.extend(self._render(p, why))
            else:
                out.append(p)
        return tuple(out)

    def _mk(self, parts):
        return type(self).make(parts, self._base())

    def _idx(self, i):
        return i.concrete("string index") if type(i) is SymInt else i

    def __iter__(self):
        parts = self.need_plain("iteration")
        for p in parts:
            yield self._item(p)

    def __add__(self, o):
        op = self.parts_of(o)
        if op is None:
            return NotImplemented
        return self._mk(self.parts + op)

    def __radd__(self, o):
        op = self.parts_of(o)
        if op is None:
            return NotImplemented
        return self._mk(op + self.parts)

    def __mul__(self, n):
        return self._mk(self.parts * int(n))
    __rmul__ = __mul__

    def eq_expr(self, o):
        op = self.parts_of(o)
        if op is None:
            return False
        a, b = self.parts, op
        if plain(a) and plain(b):
            if len(a) != len(b):
                return False
            return zand(*[part_eq(x, y) for x, y in zip(a, b)])
        return opaque_eq(self, a, b)

    def __eq__(self, o):
        return mkbool(self.eq_expr(o))

    def __ne__(self, o):
        return mkbool(znot(self.eq_expr(o)))

    def __lt__(self, o):
        op = self.parts_of(o)
        if op is None:
            return NotImplemented
        return mkbool(seq_lt(self, self.parts, op))

    def __gt__(self, o):
        op = self.parts_of(o)
        if op is None:
            return NotImplemented
        return mkbool(seq_lt(self, op, self.parts))

    def __le__(self, o):
        return mkbool(zor(self < o, self == o))

    def __ge__(self, o):
        return mkbool(zor(self > o, self == o))

    def startswith(self, prefix, *a):
        if a:
            return self[a[0]:(a[1] if len(a) > 1 else None)].startswith(prefix)
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        pp = self.parts_of(prefix)
        if plain(self.parts[:len(pp)]) and len(self.parts) >= len(pp) and plain(pp):
            return branch(zand(*[part_eq(x, y) for x, y in zip(self.parts, pp)]))
        if plain(self.parts):
            return False
        if pp and not isinstance(pp[0], Opaque) and not is_z3(pp[0]) and isinstance(self.parts[0], Opaque) \
                and self.parts[0].first is not None and chr(pp[0]) not in self.parts[0].first:
            return False
        parts = self.need_plain("startswith")
        return len(parts) >= len(pp) and branch(zand(*[part_eq(x, y) for x, y in zip(parts, pp)]))

    def endswith(self, suffix, *a):
        if isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        sp = self.parts_of(suffix)
        if not sp:
            return True
        parts = self.parts
        if not plain(parts[-len(sp):]):
            parts = self.need_plain("endswith")
        if len(parts) < len(sp):
            return False
        return branch(zand(*[part_eq(x, y) for x, y in zip(parts[-len(sp):], sp)]))

    def find_at(self, sub, start=0, reverse=False):
        """index of part where sub (plain parts) occurs, -1 if not"""
        sp = self.parts_of(sub)
        parts = self.parts
        if not plain(parts):
            # a rendering cannot contain a character outside its alphabet
            if len(sp) == 1 and not is_z3(sp[0]) and all(
                    (not isinstance(p, Opaque)) or (p.alphabet is not None and chr(sp[0]) not in p.alphabet) for p in parts):
                pass
            else:
                parts = self.need_plain("find")
        rng = range(start, len(parts) - len(sp) + 1)
        for i in (reversed(rng) if reverse else rng):
            window = parts[i:i + len(sp)]
            if not plain(window):
                continue
            if branch(zand(*[part_eq(x, y) for x, y in zip(window, sp)])):
                return i, parts
        return -1, parts

    def __contains__(self, sub):
        if self.parts_of(sub) is None:
            if type(sub) in (int, SymInt) and self._base_cls() is not str:
                return any(branch(part_eq(p, int_to_part(sub, 8))) for p in self.need_plain("in"))
            raise TypeError("'in <string>' requires string as left operand")
        return self.find_at(sub)[0] >= 0

    def find(self, sub, start=0):
        i, parts = self.find_at(sub, start)
        return i if plain(parts[:max(i, 0)]) else len(self._mk(parts[:i]))

    def rfind(self, sub):
        i, parts = self.find_at(sub, 0, True)
        return i if plain(parts[:max(i, 0)]) else len(self._mk(parts[:i]))

    def rindex(self, sub):
        i = self.rfind(sub)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [self._mk_c(x) for x in self.concrete("split()").split(sep, maxsplit)]
        n = len(self.parts_of(sep))
        out = []
        rest = self
        while maxsplit != 0:
            i, parts = rest.find_at(sep)
            if i < 0:
                break
            out.append(rest._mk(parts[:i]))
            rest = as_seq(rest._mk(parts[i + n:]), self)
            maxsplit -= 1
        out.append(rest._mk(rest.parts))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return [self._mk_c(x) for x in self.concrete("rsplit()").rsplit(sep, maxsplit)]
        n = len(self.parts_of(sep))
        out = []
        rest = self
        while maxsplit != 0:
            i, parts = rest.find_at(sep, 0, True)
            if i < 0:
                break
            out.insert(0, rest._mk(parts[i + n:]))
            rest = as_seq(rest._mk(parts[:i]), self)
            maxsplit -= 1
        out.insert(0, rest._mk(rest.parts))
        return out

    def partition(self, sep):
        i, parts = self.find_at(sep)
        if i < 0:
            return self._mk(self.parts), self._mk(()), self._mk(())
        n = len(self.parts_of(sep))
        return self._mk(parts[:i]), self._mk(parts[i:i + n]), self._mk(parts[i + n:])

    def rpartition(self, sep):
        i, parts = self.find_at(sep, 0, True)
        if i < 0:
            return self._mk(()), self._mk(()), self._mk(self.parts)
        n = len(self.parts_of(sep))
        return self._mk(parts[:i]), self._mk(parts[i:i + n]), self._mk(parts[i + n:])

    def replace(self, old, new, count=-1):
        op, np_ = self.parts_of(old), self.parts_of(new)
        if not op:
            return self._mk_c(concrete(self).replace(concrete(old), concrete(new), count))
        out = ()
        rest = self
        while count != 0:
            i, parts = rest.find_at(old)
            if i < 0:
                break
            out = out + tuple(parts[:i]) + np_
            rest = as_seq(rest._mk(parts[i + len(op):]), self)
            count -= 1
        return self._mk(out + rest.parts)

    def _strip(self, chars, left, right):
        if chars is None:
            return self._mk_c(getattr(self.concrete("strip()"), "strip" if left and right else "lstrip" if left else "rstrip")())
        cs = self.parts_of(chars)
        parts = list(self.parts)

        def hit(p):
            if isinstance(p, Opaque):
                if p.alphabet is not None and not any((not is_z3(c)) and chr(c) in p.alphabet for c in cs):
                    return False
                raise PathAbort("strip into rendering")
            return branch(zor(*[part_eq(p, c) for c in cs]))
        while left and parts and hit(parts[0]):
            parts.pop(0)
        while right and parts and hit(parts[-1]):
            parts.pop()
        return self._mk(parts)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def removeprefix(self, prefix):
        n = len(self.parts_of(prefix))
        return self._mk(self.need_plain("removeprefix")[n:] if self.startswith(prefix) else self.parts)

    def removesuffix(self, suffix):
        n = len(self.parts_of(suffix))
        if not n or not self.endswith(suffix):
            return self._mk(self.parts)
        parts = self.parts if plain(self.parts[-n:]) else self.need_plain("removesuffix")
        return self._mk(parts[:-n])

    def count(self, sub, *a):
        sp = self.parts_of(sub)
        if a or not sp:
            return self.concrete("count").count(concrete(sub), *a)
        n, rest = 0, self
        while True:
            i, parts = rest.find_at(sub)
            if i < 0:
                return n
            n += 1
            rest = as_seq(rest._mk(parts[i + len(sp):]), self)

    def isascii(self):
        if not plain(self.parts):
            return self.concrete("isascii").isascii()
        return all(branch(z3.ULT(p, 128)) if is_z3(p) else p < 128 for p in self.parts)

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


def as_seq(x, like):
    if isinstance_sym(x, (SymStr, SymBytes)):
        return x
    return type(like)(like.parts_of(x), like.cls)


def isinstance_sym(x, types_):
    return type(x) in (types_ if isinstance(types_, tuple) else (types_,))


def opaque_eq(like, a, b):
    """equality of part lists with renderings"""
    # strip equal concrete prefix / suffix
    if a == b and all(x is y or x == y for x, y in zip(a, b) if not is_z3(x)):
        pass
    a, b = list(a), list(b)
    conds = []

    def first_set(p):
        if isinstance(p, Opaque):
            return p.first
        return None if is_z3(p) else frozenset(chr(p))
    while a and b:
        x, y = a[0], b[0]
        if not isinstance(x, Opaque) and not isinstance(y, Opaque):
            c = part_eq(x, y)
            c = zbool(c) if not is_z3(c) else z3.simplify(c)
            if c is False or (is_z3(c) and z3.is_false(c)):
                return False
            conds.append(c)
            a.pop(0)
            b.pop(0)
            continue
        fx, fy = first_set(x), first_set(y)
        if fx is not None and fy is not None and not (fx & fy):
            return False
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            # same rendering followed by parts that end the alphabet
            s = x.same(y)
            if s is not None and len(a) == 1 and len(b) == 1:
                conds.append(s)
                return zand(*conds)
            if s is True:
                a.pop(0)
                b.pop(0)
                continue
            if s is not None and ends(a, x) and ends(b, y) and tail_same(a[1:], b[1:]):
                conds.append(s)
                return zand(*conds)
        # rendering against concrete text
        op, other = (a, b) if isinstance(x, Opaque) else (b, a)
        o = op[0]
        if o.kind == "dec" and len(op) == 1 and all(not isinstance(p, Opaque) and not is_z3(p) for p in other):
            text = "".join(map(chr, other))
            try:
                v = int(text)
            except ValueError:
                return False
            if str(v) != text:
                return False
            conds.append(o.payload == v)
            return zand(*conds)
        if o.kind == "repr" and len(op) == 1 and all(not isinstance(p, Opaque) and not is_z3(p) for p in other):
            text = "".join(map(chr, other))
            try:
                v = complex(text) if is_cplx(o.payload) else float(text)
            except ValueError:
                return False
            if repr(v) != text:
                return False
            conds.append(same_number(o.payload, v))
            return zand(*conds)
        break
    if not a and not b:
        return zand(*conds)
    if not a or not b:
        return False      # renderings are non empty
    ca = like._mk(tuple(a))
    cb = like._mk(tuple(b))
    pa = as_seq(ca, like).need_plain("equality")
    pb = as_seq(cb, like).need_plain("equality")
    if len(pa) != len(pb):
        return False
    return zand(*(conds + [part_eq(x, y) for x, y in zip(pa, pb)]))


def ends(parts, o):
    """rendering o = parts[0] is delimited by what follows"""
    if len(parts) == 1:
        return True
    n = parts[1]
    return not isinstance(n, Opaque) and not is_z3(n) and o.alphabet is not None and chr(n) not in o.alphabet


def tail_same(a, b):
    return len(a) == len(b) and all((not isinstance(x, Opaque)) and (not is_z3(x)) and x == y for x, y in zip(a, b))


def part_lt(a, b):
    if is_z3(a) or is_z3(b):
        w = (a if is_z3(a) else b).size()
        a = a if is_z3(a) else z3.BitVecVal(a, w)
        b = b if is_z3(b) else z3.BitVecVal(b, w)
        return z3.ULT(a, b)
    return a < b


def seq_lt(like, a, b):
    """lexicographic a < b"""
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        ox, oy = isinstance(x, Opaque), isinstance(y, Opaque)
        if not ox and not oy:
            if branch(part_eq(x, y)):
                a.pop(0)
                b.pop(0)
                continue
            return part_lt(x, y)
        if ox and oy and x is y:
            a.pop(0)
            b.pop(0)
            continue
        fx = x.first if ox else (None if is_z3(x) else frozenset(chr(x)))
        fy = y.first if oy else (None if is_z3(y) else frozenset(chr(y)))
        if fx is not None and fy is not None:
            if max(fx) < min(fy):
                return True
            if min(fx) > max(fy):
                return False
        if ox and oy and x.kind == y.kind == "dec" and len(a) == 1 and len(b) == 1:
            return dec_lt(x.payload, y.payload)
        # the order of the two texts depends on the spelling of a number: both orders are explored
        return fresh("textorder", z3.BoolSort())
    return bool(not a and b)


def int_to_part(x, bits):
    if type(x) is SymInt:
        return z3.Int2BV(x.e, bits)
    return int(x)


NAME_ND = None


def digit_ranges():
    """code point ranges matched by \\d"""
    global NAME_ND
    if NAME_ND is None:
        out = []
        start = prev = None
        for c in range(0x110000):
            if unicodedata.category(chr(c)) == "Nd":
                if prev is not None and c == prev + 1:
                    prev = c
                    continue
                if start is not None:
                    out.append((start, prev))
                start = prev = c
        out.append((start, prev))
        NAME_ND = out
    return NAME_ND


class SymStr(SymSeq):
    __slots__ = ()

    def __init__(self, parts, cls=str):
        SymSeq.__init__(self, parts, cls)

    @staticmethod
    def make(parts, cls=str):
        parts = tuple(norm_part(p) for p in parts)
        for p in parts:
            if isinstance(p, Opaque) or is_z3(p):
                return SymStr(parts, cls)
        s = "".join(map(chr, parts))
        return s if cls is str else cls(s)

    def _base(self): return str
    def _base_cls(self): return str

    @staticmethod
    def parts_of(o):
        if type(o) is SymStr:
            return o.parts
        if isinstance(o, str) and not is_sym(o):
            return tuple(map(ord, o))
        return None

    def _item(self, p):
        return SymStr.make((p,))

    def _mk_c(self, s):
        return s

    def _render(self, p, why):
        why = "concretised: " + why
        if p.kind == "dec":
            v = engine().concretize(p.payload, why).as_long() if is_z3(p.payload) else p.payload
            return tuple(map(ord, str(v)))
        return tuple(map(ord, repr(concrete(p.payload))))

    def concrete(self, why="str"):
        out = []
        for p in self.need_plain(why):
            if is_z3(p):
                p = engine().concretize(p, "concretised: " + why).as_long()
            out.append(chr(p))
        s = "".join(out)
        return s if self.cls is str else self.cls(s)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(self._idx(x) for x in (i.start, i.stop, i.step)))
            if not plain(self.parts):
                r = self._opaque_slice(i)
                if r is not None:
                    return r
            return SymStr.make(self.need_plain("slice")[i])
        if not plain(self.parts):
            i = self._idx(i)
            if i >= 0 and len(self.parts) > i and plain(self.parts[:i + 1]):
                return SymStr.make((self.parts[i],))
            if i < 0 and len(self.parts) >= -i and plain(self.parts[i:]):
                return SymStr.make((self.parts[i],))
        return SymStr.make((self.need_plain("index")[self._idx(i)],))

    def _opaque_slice(self, s):
        a, b, st = s.start or 0, s.stop, s.step
        if st not in (None, 1):
            return None
        n = len(self.parts)
        hi = n if b is None else b
        if a < 0 or (b is not None and b >= 0):
            if b is not None and b >= 0 and b <= n and plain(self.parts[:b]) and a >= 0:
                return SymStr.make(self.parts[a:b])
            return None
        if a <= n and plain(self.parts[:a]) and (b is None or (n + b >= a and plain(self.parts[hi:]))):
            return SymStr.make(self.parts[a:hi])
        return None

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if errors != "strict" or enc not in ("utf8", "ascii", "latin1"):
            return self.concrete("encode %s/%s" % (encoding, errors)).encode(encoding, errors)
        out = []
        for p in self.parts:
            if isinstance(p, Opaque) or not is_z3(p):
                if isinstance(p, Opaque):
                    out.append(p)
                else:
                    out.extend(chr(p).encode(encoding))
                continue
            out.extend(encode_char(p, enc))
        return SymBytes.make(out)

    def __str__(self):
        return str(self.concrete("str")) if engine() else "<SymStr>"

    def __repr__(self):
        return repr(self.concrete("repr")) if engine() else "<SymStr>"

    def __format__(self, spec):
        return format(self.concrete("format"), spec)

    def format(self, *a, **k):
        return self.concrete("format template").format(*a, **k)

    def join(self, it):
        out = ()
        first = True
        for x in it:
            if not first:
                out += self.parts
            first = False
            xp = self.parts_of(x)
            if xp is None:
                raise TypeError("sequence item: expected str instance")
            out += xp
        return SymStr.make(out)

    def _ascii_case(self, name):
        parts = self.parts
        out = []
        for p in parts:
            if isinstance(p, Opaque):
                return getattr(self.concrete(name), name)()
            if not is_z3(p):
                c = getattr(chr(p), name)()
                out.extend(map(ord, c))
                continue
            if not branch(z3.ULT(p, 128)):
                return getattr(self.concrete(name), name)()
            if name == "lower":
                out.append(z3.If(z3.And(z3.UGE(p, 65), z3.ULE(p, 90)), p + 32, p))
            else:
                out.append(z3.If(z3.And(z3.UGE(p, 97), z3.ULE(p, 122)), p - 32, p))
        return SymStr.make(out)

    def lower(self): return self._ascii_case("lower")
    def upper(self): return self._ascii_case("upper")

    def isdigit(self):
        if not self.parts:
            return False
        if plain(self.parts):
            return all(branch(zor(*[z3.And(z3.UGE(p, a), z3.ULE(p, b)) for a, b in digit_ranges()])) if is_z3(p)
                       else chr(p).isdigit() for p in self.parts)
        return self.concrete("isdigit").isdigit()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr(str, name)          # AttributeError if str has no such method
        return getattr(self.concrete("str." + name), name)

    def __mod__(self, args):
        return self.concrete("% template") % args


def norm_part(p):
    if is_z3(p):
        p = z3.simplify(p)
        if z3.is_bv_value(p):
            return p.as_long()
    return p


# provenance of utf8 bytes: expr id -> (expr, char, index, count)
UTF8_PROV = {}


def encode_char(c, enc="utf8"):
    """bytes of a symbolic code point; forks on its size class"""
    if branch(z3.ULT(c, 0x80)):
        outs = [z3.simplify(z3.Extract(7, 0, c))]
    elif enc == "latin1":
        if branch(z3.ULT(c, 0x100)):
            return [z3.simplify(z3.Extract(7, 0, c))]
        raise UnicodeEncodeError("latin-1", "?", 0, 1, "ordinal not in range(256)")
    elif enc == "ascii":
        raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
    elif branch(z3.ULT(c, 0x800)):
        outs = [z3.Concat(z3.BitVecVal(0b110, 3), z3.Extract(10, 6, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, c))]
    elif branch(z3.ULT(c, 0x10000)):
        if branch(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF))):
            raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
        outs = [z3.Concat(z3.BitVecVal(0b1110, 4), z3.Extract(15, 12, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(11, 6, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, c))]
    else:
        outs = [z3.Concat(z3.BitVecVal(0b11110, 5), z3.Extract(20, 18, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(17, 12, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(11, 6, c)),
                z3.Concat(z3.BitVecVal(0b10, 2), z3.Extract(5, 0, c))]
    outs = [z3.simplify(o) for o in outs]
    for i, o in enumerate(outs):
        UTF8_PROV[o.get_id()] = (o, c, i, len(outs))
    return outs


def _prov(p):
    if not is_z3(p):
        return None
    x = UTF8_PROV.get(p.get_id())
    return x if x is not None and x[0].eq(p) else None


def decode_utf8(parts, enc="utf8", errors="strict"):
    def bad():
        if errors != "strict":
            raise PathAbort("decode error handler")
        raise UnicodeDecodeError(enc, b"\xff", 0, 1, "invalid byte")
    out = []
    i = 0
    n = len(parts)
    while i < n:
        p = parts[i]
        if isinstance(p, Opaque):
            out.append(p)
            i += 1
            continue
        if enc == "latin1":
            out.append(z3.ZeroExt(CH - 8, p) if is_z3(p) else p)
            i += 1
            continue
        pr = _prov(p)
        if pr is not None and pr[2] == 0 and enc == "utf8":
            k = pr[3]
            seg = [_prov(q) if not isinstance(q, Opaque) else None for q in parts[i:i + k]]
            if len(seg) == k and all(s is not None and s[1].eq(pr[1]) and s[2] == j and s[3] == k for j, s in enumerate(seg)):
                out.append(pr[1])
                i += k
                continue

        def lt(x, v):
            return z3.ULT(x, v) if is_z3(x) else x < v

        def between(x, a, b):
            return z3.And(z3.UGE(x, a), z3.ULE(x, b)) if is_z3(x) else a <= x <= b

        def ext(x):
            return z3.ZeroExt(CH - 8, x) if is_z3(x) else z3.BitVecVal(x, CH)
        if branch(lt(p, 0x80)):
            out.append(z3.ZeroExt(CH - 8, p) if is_z3(p) else p)
            i += 1
            continue
        if enc == "ascii":
            bad()
        if branch(between(p, 0xC2, 0xDF)):
            k = 2
        elif branch(between(p, 0xE0, 0xEF)):
            k = 3
        elif branch(between(p, 0xF0, 0xF4)):
            k = 4
        else:
            bad()
        seg = parts[i + 1:i + k]
        if len(seg) < k - 1 or any(isinstance(q, Opaque) for q in seg):
            bad()
        for q in seg:
            if not branch(between(q, 0x80, 0xBF)):
                bad()
        v = ext(p) & {2: 0x1F, 3: 0x0F, 4: 0x07}[k]
        for q in seg:
            v = (v << 6) | (ext(q) & 0x3F)
        v = z3.simplify(v)
        if k == 3 and branch(z3.Or(z3.ULT(v, 0x800), z3.And(z3.UGE(v, 0xD800), z3.ULE(v, 0xDFFF)))):
            bad()
        if k == 4 and branch(z3.Or(z3.ULT(v, 0x10000), z3.UGT(v, 0x10FFFF))):
            bad()
        out.append(v)
        i += k
    return SymStr.make(out)


class SymBytes(SymSeq):
    """bytes / bytearray / memoryview content"""
    __slots__ = ()

    def __init__(self, parts, cls=bytes):
        SymSeq.__init__(self, parts, cls)

    @staticmethod
    def make(parts, cls=bytes):
        parts = tuple(norm_part(p) for p in parts)
        for p in parts:
            if isinstance(p, Opaque) or is_z3(p):
                return SymBytes(parts, cls)
        b = bytes(parts)
        return b if cls is bytes else cls(b)

    def _base(self):
        return bytes if self.cls not in (bytearray, memoryview) else self.cls

    def _base_cls(self): return bytes

    @staticmethod
    def parts_of(o):
        if type(o) is SymBytes:
            return o.parts
        if isinstance(o, (bytes, bytearray)) and not is_sym(o):
            return tuple(o)
        if isinstance(o, memoryview) and not is_sym(o):
            return tuple(bytes(o))
        return None

    def _item(self, p):
        return mkint(z3.BV2Int(p)) if is_z3(p) else p

    def _mk_c(self, s):
        return s

    def _render(self, p, why):
        why = "concretised: " + why
        if p.kind == "pickle":
            import pickle
            from .models import m_pickle_loads
            return tuple(pickle.dumps(concrete(m_pickle_loads(SymBytes((p,))))))
        if p.kind == "dec":
            v = engine().concretize(p.payload, why).as_long() if is_z3(p.payload) else p.payload
            return tuple(str(v).encode())
        return tuple(repr(concrete(p.payload)).encode())

    def concrete(self, why="bytes"):
        out = []
        for p in self.need_plain(why):
            if is_z3(p):
                p = engine().concretize(p, "concretised: " + why).as_long()
            out.append(p)
        b = bytes(out)
        return b if self.cls is bytes else self.cls(b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(self._idx(x) for x in (i.start, i.stop, i.step)))
            return SymBytes.make(self.need_plain("slice")[i], self._base())
        return self._item(self.need_plain("index")[self._idx(i)])

    def decode(self, encoding="utf-8", errors="strict"):
        if self.cls is memoryview:
            raise AttributeError("'memoryview' object has no attribute 'decode'")
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc not in ("utf8", "ascii", "latin1") or errors != "strict":
            return self.concrete("decode %s/%s" % (encoding, errors)).decode(encoding, errors)
        return decode_utf8(self.parts, enc, errors)

    def tobytes(self):
        if self.cls is not memoryview:
            raise AttributeError("tobytes")
        return SymBytes.make(self.parts)

    @property
    def nbytes(self):
        return mkint(self.length())

    def __bytes__(self):
        return bytes(self.concrete("bytes()"))

    def join(self, it):
        out = ()
        first = True
        for x in it:
            if not first:
                out += self.parts
            first = False
            out += self.parts_of(x)
        return SymBytes.make(out)

    def __repr__(self):
        return repr(self.concrete("repr")) if engine() else "<SymBytes>"
    __str__ = __repr__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        getattr(self._base(), name)
        return getattr(self.concrete("bytes." + name), name)


# ---------------------------------------------------------------- arrays
class SymArray:
    """numpy array with symbolic elements; elements are raw values (see raw_*).

    kinds: i,u,b -> int or z3 Int; f -> float, z3 FP or IntF; c -> pair of
    those; S -> tuple of itemsize byte parts; U -> tuple of itemsize//4
    characters; O -> python objects.  `blob` replaces elems for one
    dimensional byte data that contains renderings.
    """

    def __init__(self, dtype, shape, elems=None, blob=None, cls=np.ndarray):
        object.__setattr__(self, "_dtype", np.dtype(dtype))
        object.__setattr__(self, "_shape", tuple(shape))
        object.__setattr__(self, "elems", list(elems) if elems is not None else None)
        object.__setattr__(self, "blob", blob)
        object.__setattr__(self, "cls", cls)

    @property
    def __class__(self):
        return self.cls

    @property
    def dtype(self):
        return self._dtype

    @dtype.setter
    def dtype(self, value):
        new = np.dtype(value)
        old = self._dtype
        if old == new:
            return
        if old.kind in "iub" and old.itemsize == 1 and new.kind == "S" and new.itemsize == 1:
            if self.elems is not None:
                self.elems = [(int_to_byte(x),) for x in self.elems]
            self._dtype = new
            return
        if old.kind == "S" and new == np.dtype("u1"):
            self.elems = [byte_to_int(b) for x in self.elems for b in x]
            self._shape = self._shape[:-1] + (self._shape[-1] * old.itemsize,) if self._shape else ()
            self._dtype = new
            return
        raise PathAbort("dtype view %s -> %s" % (old, new))

    @property
    def shape(self):
        return tuple(mkint(s) if is_z3(s) else s for s in self._shape)

    @shape.setter
    def shape(self, s):
        self._shape = tuple(s)

    @property
    def ndim(self):
        return len(self._shape)

    def raw_size(self):
        if self.blob is not None:
            return self.blob.length()
        return len(self.elems)

    @property
    def size(self):
        return mkint(self.raw_size())

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self._dtype.itemsize

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return self._perm(tuple(reversed(range(self.ndim))))

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return self._perm(axes)

    def _perm(self, axes):
        idx = np.arange(len(self.elems)).reshape(self._shape).transpose(axes)
        return SymArray(self._dtype, idx.shape, [self.elems[i] for i in idx.ravel()], cls=self.cls)

    @property
    def flags(self):
        class F:
            c_contiguous = True
            f_contiguous = False
        return F

    @property
    def strides(self):
        return np.empty(self._shape, self._dtype).strides

    @property
    def data(self):
        return self

    @property
    def flat(self):
        return iter(self.ravel())

    def __setattr__(self, name, value):
        if name == "__class__":
            raise AttributeError(name)
        object.__setattr__(self, name, value)

    def like(self, shape, elems, dtype=None):
        return SymArray(dtype or self._dtype, shape, elems, cls=np.ndarray)

    def scalar(self, raw):
        return wrap_raw(self._dtype, raw)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        s = self._shape[0]
        return engine().concretize(s, "concretised: len(array)").as_long() if is_z3(s) else s

    def _need_elems(self):
        if self.elems is None:
            parts = self.blob.need_plain("array elements")
            self.elems = [(p,) for p in parts] if self._dtype.kind == "S" else [byte_to_int(p) for p in parts]
            self._shape = tuple(len(parts) if is_z3(s) else s for s in self._shape)
            self.blob = None
        return self.elems

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, key):
        if key is Ellipsis or (isinstance(key, tuple) and len(key) == 0):
            if self.ndim == 0:
                return self.scalar(self.elems[0]) if key == () else self
            return self
        elems = self._need_elems()
        if isinstance(key, SymArray):
            key = concrete(key)
        idx = np.arange(len(elems)).reshape(self._shape)[key_concrete(key)]
        if np.ndim(idx) == 0:
            return self.scalar(elems[int(idx)])
        return self.like(idx.shape, [elems[int(i)] for i in idx.ravel()])

    def __setitem__(self, key, value):
        elems = self._need_elems()
        idx = np.arange(len(elems)).reshape(self._shape)[key_concrete(key)]
        if np.ndim(idx) == 0:
            elems[int(idx)] = raw_of(value, self._dtype)
            return
        src = to_symarray(value)
        vals = src.elems
        if len(vals) == 1:
            vals = vals * idx.size
        for i, v in zip(idx.ravel(), vals):
            elems[int(i)] = cast_raw(v, src._dtype, self._dtype)

    def tolist(self):
        elems = self._need_elems()
        if not self._shape:
            return item_of(self._dtype, elems[0])

        def build(shape, off):
            if len(shape) == 1:
                return [item_of(self._dtype, elems[off + i]) for i in range(shape[0])]
            step = int(np.prod(shape[1:], dtype=int))
            return [build(shape[1:], off + i * step) for i in range(shape[0])]
        return build(self._shape, 0)

    def item(self, *a):
        elems = self._need_elems()
        if a:
            return item_of(self._dtype, elems[int(np.arange(len(elems)).reshape(self._shape)[a if len(a) > 1 else a[0]])])
        if len(elems) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return item_of(self._dtype, elems[0])

    def copy(self, order="C"):
        return SymArray(self._dtype, self._shape, self.elems, self.blob, self.cls)

    def __copy__(self): return self.copy()

    def astype(self, dtype, *a, **k):
        new = np.dtype(dtype)
        if self.blob is not None and new == self._dtype:
            return self.copy()
        return SymArray(new, self._shape, [cast_raw(e, self._dtype, new) for e in self._need_elems()], cls=self.cls)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        if self.blob is not None:
            return SymArray(self._dtype, (self.raw_size(),), None, self.blob)
        return self.like((len(self.elems),), self.elems)
    flatten = ravel

    def squeeze(self, *a):
        return reshape(self, tuple(s for s in self._shape if s != 1))

    def view(self, dtype=None, type=None):
        r = self.copy()
        if isinstance(dtype, __builtins__["type"] if isinstance(__builtins__, dict) else __builtins__.type) and issubclass(dtype, np.ndarray):
            r.cls = dtype
        elif dtype is not None:
            r.dtype = dtype
        return r

    def tobytes(self, order="C"):
        return raw_bytes(self)

    def __bool__(self):
        elems = self._need_elems()
        if len(elems) != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(self.scalar(elems[0]))

    def __array__(self, dtype=None, copy=None):
        a = concrete(self)
        return np.array(a, dtype=dtype)

    def concrete(self, why="array"):
        elems = self._need_elems()
        out = np.empty(len(elems), self._dtype)
        for i, e in enumerate(elems):
            if self._dtype.kind == "S":
                out[i] = concrete(SymBytes.make(e))
            elif self._dtype.kind == "U":
                out[i] = concrete(SymStr.make(strip_nul(e)))
            else:
                out[i] = concrete(self.scalar(e))
        out = out.reshape(self._shape)
        return out if self.cls is np.ndarray else out.view(self.cls)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __eq__(self, o):
        return elementwise_eq(self, o)

    def __ne__(self, o):
        r = elementwise_eq(self, o)
        return SymArray(bool, r._shape, [z3.If(x == 0, z3.IntVal(1), z3.IntVal(0)) if is_z3(x) else 1 - x for x in r.elems]) if type(r) is SymArray else ~r

    def all(self, *a, **k):
        return mkbool(zand(*[(e != 0) if is_z3(e) else bool(e) for e in self._need_elems()]))

    def any(self, *a, **k):
        return mkbool(zor(*[(e != 0) if is_z3(e) else bool(e) for e in self._need_elems()]))

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_"):
            raise AttributeError(name)
        getattr(np.ndarray, name)
        return getattr(self.concrete("ndarray." + name), name)

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")

    def __repr__(self):
        return "<SymArray %s %s>" % (self._dtype, self._shape)


def _bool_op(name, op):
    """operators of boolean arrays of one shape stay symbolic, those of other arrays work on values"""
    def f(self, o):
        b = to_symarray(o) if type(o) in (SymArray, np.ndarray) else o
        if type(b) is SymArray and self._dtype == bool and b._dtype == bool and self._shape == b._shape:
            z = {"and": zand, "or": zor, "xor": lambda x, y: zor(zand(x, znot(y)), zand(znot(x), y))}[name]
            out = []
            for x, y in zip(self._need_elems(), b._need_elems()):
                r = z(*[(e != 0) if is_z3(e) else bool(e) for e in (x, y)])
                out.append(z3.If(r, z3.IntVal(1), z3.IntVal(0)) if is_z3(r) else int(r))
            return SymArray(bool, self._shape, out)
        return op(self.concrete("array " + name), concrete(o, "array " + name))
    return f


def _array_op(name, op, swap=False):
    def f(self, *o):
        v = [self.concrete("array " + name)] + [concrete(x, "array " + name) for x in o]
        return op(*(reversed(v) if swap else v))
    return f


for _n in ("and", "or", "xor"):
    setattr(SymArray, "__%s__" % _n, _bool_op(_n, getattr(operator, "__%s__" % _n)))
    setattr(SymArray, "__r%s__" % _n, _bool_op(_n, lambda a, b, _o=getattr(operator, "__%s__" % _n): _o(b, a)))
for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "matmul"):
    setattr(SymArray, "__%s__" % _n, _array_op(_n, getattr(operator, "__%s__" % _n)))
    setattr(SymArray, "__r%s__" % _n, _array_op(_n, getattr(operator, "__%s__" % _n), swap=True))
for _n in ("lt", "le", "gt", "ge", "neg", "pos", "abs"):
    setattr(SymArray, "__%s__" % _n, _array_op(_n, getattr(operator, "__%s__" % _n)))


def _array_invert(self):
    if self._dtype == bool:
        return SymArray(bool, self._shape, [z3.If(x == 0, z3.IntVal(1), z3.IntVal(0)) if is_z3(x) else 1 - x for x in self._need_elems()])
    return ~self.concrete("array invert")


SymArray.__invert__ = _array_invert


def key_concrete(k):
    if isinstance(k, tuple):
        return tuple(key_concrete(x) for x in k)
    if isinstance(k, slice):
        return slice(*(int(x) if type(x) is SymInt else x for x in (k.start, k.stop, k.step)))
    return int(k) if type(k) is SymInt else k


def elementwise_eq(a, b):
    b = to_symarray(b)
    if a._shape != b._shape and len(b.elems) != 1:
        return np.False_
    be = b.elems if len(b.elems) == len(a._need_elems()) else b.elems * len(a.elems)
    out = []
    for x, y in zip(a.elems, be):
        c = zbool(raw_eq(x, a._dtype, y, b._dtype))
        out.append(int(c) if isinstance(c, bool) else z3.If(c, z3.IntVal(1), z3.IntVal(0)))
    return SymArray(bool, a._shape, out)


def raw_eq(x, dx, y, dy):
    return wrap_raw(dx, x) == wrap_raw(dy, y)


def int_to_byte(x):
    if is_z3(x):
        # BV2Int(b) -> b
        if z3.is_app_of(x, z3.Z3_OP_BV2INT) and x.arg(0).size() == 8:
            return x.arg(0)
        return z3.Int2BV(x, 8)
    return int(x) & 255


def byte_to_int(b):
    return z3.BV2Int(b) if is_z3(b) else b


def strip_nul(parts):
    parts = list(parts)
    while parts and not is_z3(parts[-1]) and parts[-1] == 0:
        parts.pop()
    while parts and is_z3(parts[-1]) and branch(parts[-1] == 0):
        parts.pop()
        while parts and not is_z3(parts[-1]) and parts[-1] == 0:
            parts.pop()
    return tuple(parts)


def item_of(dtype, raw):
    """python object as produced by .item()/.tolist()"""
    k = dtype.kind
    if k in "iu":
        return mkint(raw)
    if k == "b":
        return branch(raw != 0) if is_z3(raw) else bool(raw)
    if k == "f":
        if isinstance(raw, (float, IntF)):
            return mkfloat_raw(raw)
        return mkfloat(as_fp64(raw))
    if k == "c":
        return SymComplex(raw64(raw[0]), raw64(raw[1]))
    if k == "S":
        return SymBytes.make(strip_nul(raw))
    if k == "U":
        return SymStr.make(strip_nul(raw))
    if k == "O":
        return raw
    raise PathAbort("item of dtype %s" % dtype)


def wrap_raw(dtype, raw):
    """numpy scalar of dtype"""
    k = dtype.kind
    if k in "iu":
        return mkint(raw, dtype.type)
    if k == "b":
        return SymInt(raw, np.bool_) if is_z3(raw) else np.bool_(raw)
    if k == "f":
        return mkfloat_raw(raw, dtype.type)
    if k == "c":
        return SymComplex(raw[0], raw[1], dtype.type)
    if k == "S":
        r = SymBytes.make(strip_nul(raw))
        if type(r) is SymBytes:
            r.cls = np.bytes_
            return r
        return np.bytes_(r)
    if k == "U":
        r = SymStr.make(strip_nul(raw))
        if type(r) is SymStr:
            r.cls = np.str_
            return r
        return np.str_(r)
    if k == "O":
        return raw
    raise PathAbort("scalar of dtype %s" % dtype)


def float_from_int(n, dtype):
    return IntF(n, {8: 53, 4: 24, 2: 11}[dtype.itemsize]) if is_z3(n) else float(dtype.type(n))


def cast_raw(raw, old, new):
    old, new = np.dtype(old), np.dtype(new)
    if old == new or (old.kind == new.kind and old.itemsize == new.itemsize and old.kind not in "V"):
        return raw
    ko, kn = old.kind, new.kind
    if ko in "iub" and kn in "iu":
        info = np.iinfo(new)
        if ko == "b":
            return raw
        oi = np.iinfo(old)
        if oi.min >= info.min and oi.max <= info.max:
            return raw
        if not is_z3(raw):
            return int(np.array(raw, old).astype(new))
        m = 2 ** (8 * new.itemsize)
        r = raw % m
        return z3.If(r > info.max, r - m, r)
    if ko in "iub" and kn == "b":
        return z3.If(raw != 0, z3.IntVal(1), z3.IntVal(0)) if is_z3(raw) else int(raw != 0)
    if ko in "iub" and kn == "f" and new.itemsize <= 8:
        return float_from_int(raw, new)
    if ko in "iub" and kn == "c":
        return (float_from_int(raw, np.dtype("f%d" % (new.itemsize // 2))), 0.0)
    if ko == "f" and kn == "f":
        if isinstance(raw, float):
            return float(new.type(raw))
        if isinstance(raw, IntF):
            if new.itemsize >= old.itemsize:
                return raw
            return float(concrete(mkfloat(raw, new.type)))
        sort = {8: FP64, 4: FP32, 2: FP16}[new.itemsize]
        return z3.fpFPToFP(z3.RNE(), raw, sort)
    if ko == "f" and kn == "c":
        return (cast_raw(raw, old, np.dtype("f%d" % (new.itemsize // 2))), 0.0)
    if ko == "c" and kn == "c":
        fo, fn = np.dtype("f%d" % (old.itemsize // 2)), np.dtype("f%d" % (new.itemsize // 2))
        return (cast_raw(raw[0], fo, fn), cast_raw(raw[1], fo, fn))
    if ko == "f" and kn == "b":
        if isinstance(raw, float):
            return int(raw != 0)
    if ko == "S" and kn == "S":
        n = new.itemsize
        return tuple(raw[:n]) + (0,) * (n - len(raw))
    if ko == "U" and kn == "U":
        n = new.itemsize // 4
        return tuple(raw[:n]) + (0,) * (n - len(raw))
    if ko == "S" and kn == "U":
        for p in raw:
            if is_z3(p) and not branch(z3.ULT(p, 128)) or (not is_z3(p) and p > 127):
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
        n = new.itemsize // 4 or len(raw)
        out = tuple(z3.ZeroExt(CH - 8, p) if is_z3(p) else p for p in raw[:n])
        return out + (0,) * (n - len(out))
    if ko == "U" and kn == "S":
        n = new.itemsize or len(raw)
        out = []
        for p in raw[:n]:
            if is_z3(p):
                if not branch(z3.ULT(p, 128)):
                    raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
                out.append(z3.Extract(7, 0, p))
            else:
                if p > 127:
                    raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
                out.append(p)
        return tuple(out) + (0,) * (n - len(out))
    if kn == "O":
        return item_of(old, raw)
    if ko == "O":
        return raw_of(raw, new)
    v = concrete(wrap_raw(old, raw))
    engine().note_incomplete("concretised: cast %s->%s" % (old, new))
    return real_raw(np.asarray(v).astype(new)[()], new)


def real_raw(v, dtype):
    """concrete numpy scalar -> raw"""
    k = dtype.kind
    if k in "iub":
        return int(v)
    if k == "f":
        return float(v)
    if k == "c":
        return (float(v.real), float(v.imag))
    if k == "S":
        b = bytes(v)
        return tuple(b) + (0,) * (dtype.itemsize - len(b))
    if k == "U":
        s = str(v)
        return tuple(map(ord, s)) + (0,) * (dtype.itemsize // 4 - len(s))
    return v


def to_symarray(x):
    """anything array-like -> SymArray (values kept)"""
    t = type(x)
    if t is SymArray:
        return x
    if t is SymInt:
        return SymArray(scalar_dtype(x.cls), (), [x.e])
    if t is SymFloat:
        return SymArray(scalar_dtype(x.cls), (), [x.e])
    if t is SymComplex:
        return SymArray(scalar_dtype(x.cls), (), [(x.re, x.im)])
    if t is SymBytes:
        if x.cls in (bytearray, memoryview):
            return bytes_array(x)
        n = len(x.parts)
        return SymArray(np.dtype("S%d" % max(n, 1)), (), [tuple(x.need_plain("array"))])
    if t is SymStr:
        p = x.need_plain("array")
        return SymArray(np.dtype("U%d" % max(len(p), 1)), (), [tuple(p)])
    a = np.asarray(x)
    return SymArray(a.dtype, a.shape, [real_raw(v, a.dtype) for v in a.reshape(-1)] if a.dtype.kind != "O" else list(a.reshape(-1)))


def bytes_array(x, dtype="u1"):
    """1-d array over the content of a bytes-like proxy"""
    if plain(x.parts):
        return SymArray(dtype, (len(x.parts),), [byte_to_int(p) for p in x.parts])
    return SymArray(dtype, (x.length(),), None, SymBytes(x.parts))


def raw_bytes(a):
    """buffer content of a SymArray"""
    if a.blob is not None:
        return SymBytes.make(a.blob.parts)
    k = a._dtype.kind
    if k == "S":
        return SymBytes.make([p for e in a.elems for p in e])
    if k in "iub" and a._dtype.itemsize == 1:
        return SymBytes.make([int_to_byte(e) for e in a.elems])
    return concrete(a).tobytes()


def raw_of(value, dtype):
    """value assigned to an element of an array of dtype"""
    dtype = np.dtype(dtype)
    if dtype.kind == "O":
        return value
    t = type(value)
    if dtype.kind == "S" and t is SymBytes:
        return cast_raw(tuple(value.need_plain("S element")), np.dtype("S%d" % max(len(value.parts), 1)), dtype)
    if t is SymInt:
        if not issubclass(value.cls, np.generic) and dtype.kind in "iu":
            info = np.iinfo(dtype)
            if not branch(z3.And(value.e >= int(info.min), value.e <= int(info.max))):
                raise OverflowError("Python integer out of bounds for %s" % dtype)
            return value.e
        if not issubclass(value.cls, np.generic):
            if dtype.kind == "b":
                return z3.If(value.e != 0, z3.IntVal(1), z3.IntVal(0))
            if dtype.kind == "f":
                return float_from_int(value.e, dtype)
            if dtype.kind == "c":
                return (float_from_int(value.e, np.dtype("f%d" % (dtype.itemsize // 2))), 0.0)
        return cast_raw(value.e, scalar_dtype(value.cls), dtype)
    if t is SymFloat and dtype.kind in "iu":
        v = value.concrete("float to int element")
        return int(dtype.type(v))
    if is_sym(value):
        a = to_symarray(value)
        if a.ndim != 0 and len(a._need_elems()) != 1:
            raise ValueError("setting an array element with a sequence.")
        return cast_raw(a.elems[0], a._dtype, dtype)
    return real_raw(np.array(value).astype(dtype)[()] if not isinstance(value, (int, float)) else dtype.type(value), dtype)


def reshape(a, shape):
    shape = tuple(shape)
    if a.blob is not None:
        n = a.raw_size()
        known = [s for s in shape if s != 1]
        if len(known) <= 1:
            ns = []
            for s in shape:
                if type(s) is SymInt:
                    ns.append(s.e)
                elif s == -1:
                    ns.append(n)
                elif s == 1:
                    ns.append(1)
                else:
                    ns = None
                    break
            if ns is not None:
                sym = [s for s in ns if is_z3(s)]
                if len(sym) == 1 and branch(sym[0] == n):
                    return SymArray(a._dtype, ns, None, a.blob)
        a._need_elems()
    shape = tuple(int(s) for s in shape)
    idx = np.arange(len(a._need_elems())).reshape(shape)
    return SymArray(a._dtype, idx.shape, a.elems, cls=a.cls)


for _c in (SymBool, SymInt, SymFloat, SymComplex, SymStr):
    # immutable: copies made by packages which are not instrumented are the object itself
    _c.__copy__ = lambda self: self
    _c.__deepcopy__ = lambda self, memo: self


SYM = (SymBool, SymInt, SymBitLen, SymFloat, SymComplex, SymStr, SymBytes, SymArray)
SYMSET = set(SYM)
EXTRA_SYM = set()            # further proxy classes (models register them)


def is_sym(x):
    t = type(x)
    return t in SYMSET or t in EXTRA_SYM


def is_sym_str(x):
    return type(x) in (SymStr, SymBytes)


def has_sym(x, depth=8):
    t = type(x)
    if t in SYMSET or t in EXTRA_SYM:
        return True
    if depth and t in (list, tuple):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif depth and issubclass(t, (list, tuple, set, frozenset)):
        for y in list(x):
            if has_sym(y, depth - 1):
                return True
    elif depth and issubclass(t, dict):
        for k, y in list(x.items()):
            if has_sym(k, depth - 1) or has_sym(y, depth - 1):
                return True
    elif depth and t is np.ndarray and x.dtype.kind == "O" and x.size < 64:
        return any(has_sym(y, depth - 1) for y in x.ravel().tolist()) if x.ndim else has_sym(x.item(), depth - 1)
    return False


def concrete(x, why="argument", depth=9):
    """replace every symbolic value inside x by one concrete value of the path"""
    if type(x) is SymBool:
        return bool(x)
    if is_sym(x):
        return x.concrete(why)
    if depth == 0:
        return x
    t = type(x)
    if t is list:
        return [concrete(y, why, depth - 1) for y in x]
    if t is tuple:
        return tuple(concrete(y, why, depth - 1) for y in x)
    if t is dict:
        return {concrete(k, why, depth - 1): concrete(v, why, depth - 1) for k, v in x.items()}
    if t in (set, frozenset):
        return t(concrete(y, why, depth - 1) for y in x)
    return x
