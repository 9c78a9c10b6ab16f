"""Models of the C-level operations the code under test applies to symbolic values.

`call` is what every call expression of the instrumented code goes through.
Python functions are simply called.  C functions that receive a symbolic value
are answered by a model from this file; if there is none the value is
concretised (the path continues with one value and the run is marked
incomplete).
"""
import io
import sys
import types
import string
import re
import operator
import functools
import itertools
import math
import pickle
import collections
import copy as _copy
import builtins
import numpy as np
import z3
from . import sym
from .sym import *          # noqa
from .sym import _prov      # noqa
from .engine import engine, EngineControl, PathAbort

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:          # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


# ---------------------------------------------------------------- dict / set
class SDict:
    """dict with symbolic keys: ordered list of pairs, lookup decided by the solver"""

    def __init__(self, cls=dict):
        self.pairs = []
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    def _find(self, key):
        for i, (k, _) in enumerate(self.pairs):
            if k is key or key_eq(k, key):
                return i
        return -1

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError("symbolic key")
        return self.pairs[i][1]

    def __setitem__(self, key, value):
        i = self._find(key)
        if i < 0:
            self.pairs.append([key, value])
        else:
            self.pairs[i][1] = value

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError("symbolic key")
        del self.pairs[i]

    def __contains__(self, key):
        return self._find(key) >= 0

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self.pairs[i][1]

    def pop(self, key, *d):
        i = self._find(key)
        if i < 0:
            if d:
                return d[0]
            raise KeyError("symbolic key")
        return self.pairs.pop(i)[1]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i < 0:
            self.pairs.append([key, default])
            return default
        return self.pairs[i][1]

    def update(self, other=(), **kw):
        for k, v in pairs_of(other):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def items(self): return [(k, v) for k, v in self.pairs]
    def keys(self): return [k for k, _ in self.pairs]
    def values(self): return [v for _, v in self.pairs]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.pairs)
    def __bool__(self): return bool(self.pairs)
    def __hash__(self): raise TypeError("unhashable type: 'dict'")

    def copy(self):
        d = SDict(self.cls)
        d.pairs = [list(p) for p in self.pairs]
        return d

    def concrete(self, why="dict"):
        d = {concrete(k, why): concrete(v, why) for k, v in self.pairs}
        return d if self.cls is dict else self.cls(d)

    def __eq__(self, o):
        return self is o

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


class SSet:
    """set with symbolic members"""

    def __init__(self, cls=set, items=()):
        self.members = []
        self.cls = cls
        for x in items:
            self._add(x)

    @property
    def __class__(self):
        return self.cls

    def _add(self, x):
        check_hashable(x)
        for y in self.members:
            if y is x or key_eq(y, x):
                return
        self.members.append(x)

    def add(self, x): self._add(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self._add(x)

    def __iter__(self): return iter(list(self.members))
    def __len__(self): return len(self.members)
    def __bool__(self): return bool(self.members)

    def __contains__(self, x):
        return any(y is x or key_eq(y, x) for y in self.members)

    def __hash__(self):
        if self.cls is frozenset:
            return 7
        raise TypeError("unhashable type: 'set'")

    def copy(self):
        return SSet(self.cls, self.members)

    def concrete(self, why="set"):
        return self.cls(concrete(x, why) for x in self.members)

    def pop(self):
        return self.members.pop()

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and all(x in o for x in self.members)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete("set." + name), name)

    def __reduce_ex__(self, p):
        raise TypeError("symbolic value reached pickle")


class SymMasked:
    """numpy.ma.MaskedArray: contract .data and .mask are what it was built from"""

    def __init__(self, data, mask, dtype=None, fill_value=None, cls=np.ma.MaskedArray):
        self.data, self.mask, self.cls = data, mask, cls
        self.dtype = np.dtype(dtype) if dtype is not None else data.dtype
        self.fill_value = fill_value

    @property
    def __class__(self):
        return self.cls

    @property
    def shape(self): return self.data.shape

    @property
    def ndim(self): return len(self.data.shape)

    @property
    def size(self): return self.data.size

    def concrete(self, why="masked array"):
        return np.ma.array(concrete(self.data), mask=concrete(self.mask), dtype=self.dtype)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self.concrete("MaskedArray." + name), name)


class SymSparse:
    """scipy sparse matrix given by its three arrays and its shape"""

    def __init__(self, cls, data, indices, indptr, shape, dtype=None):
        self.cls = cls
        self.data, self.indices, self.indptr, self.shape = data, indices, indptr, shape
        self.dtype = np.dtype(dtype) if dtype is not None else data.dtype

    @property
    def __class__(self):
        return self.cls

    def concrete(self, why="sparse"):
        return self.cls((concrete(self.data), concrete(self.indices), concrete(self.indptr)),
                        shape=concrete(self.shape), dtype=self.dtype)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self.concrete("sparse." + name), name)


class SymObj:
    """generic object whose public parts are given by attributes (astropy contracts)"""

    def __init__(self, cls, make, **attrs):
        self.__dict__["cls"] = cls
        self.__dict__["make"] = make
        self.__dict__.update(attrs)

    @property
    def __class__(self):
        return self.__dict__["cls"]

    def concrete(self, why="object"):
        return self.make(self)

    def __getattr__(self, name):
        if name.startswith("__") or self.__dict__.get("make") is None or name in self.__dict__.get("absent", ()):
            raise AttributeError(name)
        sample = self.__dict__.get("sample")
        if sample is not None and not hasattr(sample(), name):
            # no object of this class has it, whatever its values
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def _forward(name):
    def op(self, *a):
        x = self.concrete()
        fn = getattr(type(x), name, None)
        return NotImplemented if fn is None else fn(x, *[concrete(v) for v in a])
    op.__name__ = name
    return op


for _n in "add radd sub rsub mul rmul truediv rtruediv neg pos abs getitem len iter lt le gt ge float int bool array str format".split():
    setattr(SymObj, "__%s__" % _n, _forward("__%s__" % _n))


EXTRA_SYM.update({SDict, SSet, SymMasked, SymSparse, SymObj})


def check_hashable(x):
    if type(x) in (SymArray, SDict) or (type(x) is SSet and x.cls is set):
        raise TypeError("unhashable type")
    if type(x) in (list, dict, set):
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if type(x) is tuple:
        for y in x:
            check_hashable(y)


def key_eq(a, b):
    """equality of dict keys / set members, decided on the path"""
    return branch(key_eq_expr(a, b))


def key_eq_expr(a, b):
    if is_num(a) or is_num(b):
        if is_num(a) and is_num(b):
            return num_eq(a, b)
        return False
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return zand(*[x is y or key_eq_expr(x, y) for x, y in zip(a, b)])
    if is_sym(a):
        return zbool(a == b)
    if is_sym(b):
        return zbool(b == a)
    try:
        return bool(a == b)
    except Exception:
        return False


def pairs_of(x):
    if type(x) is SDict:
        return x.items()
    if isinstance(x, dict):
        return list(x.items())
    if hasattr(x, "keys"):
        return [(k, x[k]) for k in x.keys()]
    out = []
    for i, p in enumerate(x):
        try:
            p = tuple(p)
        except TypeError:
            raise TypeError("cannot convert dictionary update sequence element #%d to a sequence" % i)
        if len(p) != 2:
            raise ValueError("dictionary update sequence element #%d has length %d; 2 is required" % (i, len(p)))
        out.append(p)
    return out


# real dicts that hold symbolic keys (per path)
SYMDICTS = {}


def real_dict_find(d, key):
    for k in list(d):
        if k is key or key_eq(k, key):
            return True, k
    return False, None


# ---------------------------------------------------------------- ids
ID_TABLE = []
ID_OF = {}
ID_NEXT = [1 << 50]


def reset_path_state():
    SYMDICTS.clear()
    ID_TABLE.clear()
    ID_OF.clear()
    ID_NEXT[0] = 1 << 50
    UTF8_PROV.clear()


def model_id(x):
    """id() with reuse of the address of dead objects left to the solver.

    The table keeps every object alive, so real addresses are never reused
    here; an object nobody else refers to is dead for the program, and its id
    may be handed to the next object if the program still remembers the id."""
    eng = engine()
    if eng is None:
        return id(x)
    ent = ID_OF.get(id(x))
    if ent is not None and ent[0] is x:
        return ent[1]
    for e in list(ID_TABLE):
        # references to a dead object: entry list, getrefcount argument
        if not e[2] and sys.getrefcount(e[0]) <= 2 and sys.getrefcount(e[1]) > 2:
            if type(e[0]) in IMMORTAL or not same_size_class(e[0], x):
                continue
            if branch(fresh("idreuse", z3.BoolSort())):
                e[2] = True
                ent = [x, e[1], False]
                ID_OF[id(x)] = ent
                ID_TABLE.append(ent)
                return e[1]
    ID_NEXT[0] += 64
    ent = [x, ID_NEXT[0] + 0, False]
    ID_TABLE.append(ent)
    ID_OF[id(x)] = ent
    return ent[1]


IMMORTAL = {bool, type(None), type}


def same_size_class(a, b):
    """could b be allocated where a was: same class is enough for free lists"""
    return a.__class__ is b.__class__


# ---------------------------------------------------------------- regular expressions
class SMatch:
    def __init__(self, s, spans):
        self.s, self.spans = s, spans

    def group(self, *idx):
        if not idx:
            idx = (0,)
        out = []
        for i in idx:
            sp = self.spans.get(i)
            out.append(None if sp is None else self.s._mk(self.s.parts[sp[0]:sp[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self, default=None):
        return tuple(self.group(i) for i in range(1, max(self.spans) + 1))

    def start(self, i=0): return self.spans[i][0]
    def end(self, i=0): return self.spans[i][1]
    def span(self, i=0): return self.spans[i]
    __getitem__ = group


def char_cond(node, p, flags, is_str):
    """does the one-character pattern node match part p: condition"""
    op, av = node
    if isinstance(p, Opaque):
        raise PathAbort("regex on rendering")

    def lit(c):
        if flags & re.I:
            return zor(*[part_eq(p, ord(x)) for x in {chr(c).lower(), chr(c).upper()} if len(x) == 1])
        return part_eq(p, c)

    def rng(a, b):
        if is_z3(p):
            return z3.And(z3.UGE(p, a), z3.ULE(p, b))
        return a <= p <= b

    def category(cat):
        name = str(cat)
        if name.endswith("CATEGORY_DIGIT"):
            if is_str and not flags & re.A:
                return zor(*[rng(a, b) for a, b in digit_ranges()]) if is_z3(p) else chr(p).isdecimal()
            return rng(48, 57)
        if not is_z3(p):
            pat = {"CATEGORY_SPACE": r"\s", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_DIGIT": r"\D",
                   "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_NOT_WORD": r"\W"}[name.rsplit(".")[-1]]
            return re.match(pat, chr(p)) is not None
        raise PathAbort("regex category %s" % name)
    if op is sre_c.LITERAL:
        return lit(av)
    if op is sre_c.NOT_LITERAL:
        return znot(lit(av))
    if op is sre_c.ANY:
        return True if flags & re.S else znot(part_eq(p, 10))
    if op is sre_c.IN:
        alts, neg = [], False
        for o, a in av:
            if o is sre_c.NEGATE:
                neg = True
            elif o is sre_c.LITERAL:
                alts.append(lit(a))
            elif o is sre_c.RANGE:
                alts.append(rng(*a))
            elif o is sre_c.CATEGORY:
                alts.append(category(a))
            else:
                raise PathAbort("regex set item")
        r = zor(*alts)
        return znot(r) if neg else r
    raise PathAbort("regex node %s" % (op,))


SINGLE = {sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN}


def rx_match(nodes, parts, i, flags, is_str, spans):
    """yield end positions of matches of nodes at i (backtracking order)"""
    if not nodes:
        yield i, spans
        return
    (op, av), rest = nodes[0], nodes[1:]
    if op in SINGLE:
        if i < len(parts) and branch(char_cond((op, av), parts[i], flags, is_str)):
            yield from rx_match(rest, parts, i + 1, flags, is_str, spans)
        return
    if op is sre_c.AT:
        name = str(av)
        if "BEGINNING" in name:
            if i == 0:
                yield from rx_match(rest, parts, i, flags, is_str, spans)
            return
        if "END" in name:
            if i == len(parts) or ("END_STRING" not in name and i == len(parts) - 1 and branch(part_eq(parts[i], 10))):
                yield from rx_match(rest, parts, i, flags, is_str, spans)
            return
        raise PathAbort("regex anchor")
    if op is sre_c.SUBPATTERN:
        group, _, _, sub = av
        for j, sp in rx_match(list(sub), parts, i, flags, is_str, spans):
            sp = dict(sp)
            if group is not None:
                sp[group] = (i, j)
            yield from rx_match(rest, parts, j, flags, is_str, sp)
        return
    if op is sre_c.BRANCH:
        for alt in av[1]:
            for j, sp in rx_match(list(alt), parts, i, flags, is_str, spans):
                yield from rx_match(rest, parts, j, flags, is_str, sp)
        return
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def reps(n, pos, sp):
            more = []
            if n < hi and pos <= len(parts):
                more = ((j, s) for j, s in rx_match(sub, parts, pos, flags, is_str, sp) if j > pos)
            if op is sre_c.MAX_REPEAT:
                for j, s in more:
                    yield from reps(n + 1, j, s)
                if n >= lo:
                    yield pos, sp
            else:
                if n >= lo:
                    yield pos, sp
                for j, s in more:
                    yield from reps(n + 1, j, s)
        for j, sp in reps(0, i, spans):
            yield from rx_match(rest, parts, j, flags, is_str, sp)
        return
    raise PathAbort("regex node %s" % (op,))


def rx_ready(pat, s):
    """renderings are skipped when the pattern is one character outside their alphabet"""
    tree = list(sre_parse.parse(pat.pattern, pat.flags & ~re.U))
    if plain(s.parts):
        return tree, s
    if len(tree) == 1 and tree[0][0] in SINGLE:
        safe = True
        for p in s.parts:
            if isinstance(p, Opaque):
                if p.alphabet is None:
                    safe = False
                    break
                for c in p.alphabet:
                    r = char_cond(tree[0], ord(c), pat.flags, isinstance(pat.pattern, str))
                    if r is not False:
                        safe = False
        if safe:
            return tree, s
    parts = s.need_plain("regex")
    return tree, type(s)(parts, s.cls)


def rx_search(pat, s, start=0, anchored=False, full=False):
    tree, s = rx_ready(pat, s)
    is_str = isinstance(pat.pattern, str)
    for i in range(start, len(s.parts) + 1):
        if i < len(s.parts) and isinstance(s.parts[i], Opaque):
            continue
        for j, sp in rx_match(tree, s.parts, i, pat.flags, is_str, {}):
            if full and j != len(s.parts):
                continue
            sp = dict(sp)
            sp[0] = (i, j)
            return SMatch(s, sp)
        if anchored:
            return None
    return None


def rx_sub(pat, repl, s, count=0):
    s = as_seq(s, SymStr((), str) if isinstance(pat.pattern, str) else SymBytes((), bytes))
    out = ()
    pos = 0
    done = 0
    tree, s = rx_ready(pat, s)
    while not (count and done >= count):
        m = rx_search(pat, s, pos)
        if m is None:
            break
        a, b = m.span()
        if a == b:
            raise PathAbort("empty regex match in sub")
        if callable(repl):
            r = repl(m)
        elif is_sym(repl) or "\\" in repl or "\\" in str(repl):
            r = re.sub(r"\\(.)", r"\1", repl) if not re.search(r"\\[0-9g]", repl) else None
            if r is None:
                raise PathAbort("regex template")
        else:
            r = repl
        out = out + s.parts[pos:a] + s.parts_of(r)
        pos = b
        done += 1
    return s._mk(out + s.parts[pos:])


def rx_method(pat, name, args, kw):
    if name == "sub" and is_sym_str(args[1] if len(args) > 1 else None):
        return rx_sub(pat, args[0], args[1], *args[2:], **kw)
    s = args[0] if args else kw.get("string")
    if not is_sym_str(s):
        return NotImplemented
    if name == "search":
        return rx_search(pat, s)
    if name == "match":
        return rx_search(pat, s, 0, True)
    if name == "fullmatch":
        return rx_search(pat, s, 0, True, True)
    if name == "split":
        out, pos = [], 0
        while True:
            m = rx_search(pat, s, pos)
            if m is None:
                break
            out.append(s._mk(s.parts[pos:m.start()]))
            pos = m.end()
        out.append(s._mk(s.parts[pos:]))
        return out
    if name == "findall":
        out, pos = [], 0
        while True:
            m = rx_search(pat, s, pos)
            if m is None:
                return out
            out.append(m.group(1) if len(m.spans) == 2 else m.group())
            pos = max(m.end(), pos + 1)
    return NotImplemented


# ---------------------------------------------------------------- formatting
def text_of(x, conv=None, spec=""):
    """str()/repr()/format() of one value -> str or SymStr"""
    if not is_sym(x):
        if has_sym(x):
            x = concrete(x, "text of container")
        if conv == "r":
            x = repr(x)
        elif conv == "s":
            x = str(x)
        elif conv == "a":
            x = ascii(x)
        return format(x, spec)
    t = type(x)
    if t in (SymInt, SymBitLen) and spec in ("", "d") and (x.cls is int or conv != "r"):
        return SymStr.make((dec_opaque(x.e),))
    if t is SymFloat and spec == "" and x.cls is float and not isinstance(x.e, IntF):
        return SymStr.make((repr_opaque(x),))
    if t is SymComplex and spec == "" and x.cls is complex:
        return SymStr.make((repr_opaque(x),))
    if t is SymStr and conv in (None, "s") and spec in ("", "s"):
        return SymStr.make(x.parts)
    if t is SymStr and conv == "r" and spec == "" and plain(x.parts):
        return repr_text(x)
    return text_of(concrete(x, "text of %s" % t.__name__), conv, spec)


def repr_text(x):
    """repr() of a text: printable ASCII stays symbolic, other characters are made concrete one by one"""
    body, single, double = [], False, False
    for p in x.parts:
        if is_z3(p):
            if branch(z3.And(z3.UGE(p, 32), z3.ULT(p, 127), p != 34, p != 39, p != 92)):
                body.append((p,))
                continue
            p = ord(concrete(SymStr((p,)), "repr of a character that is not printable ASCII"))
        single = single or p == 39
        double = double or p == 34
        body.append((p,) if p in (34, 39) else tuple(map(ord, repr(chr(p))[1:-1])))
    quote = 34 if single and not double else 39
    out = [quote]
    for b in body:
        if b == (39,) and quote == 39 and single:
            b = (92, 39)
        out.extend(b)
    return SymStr.make(tuple(out) + (quote,))


def join_parts(pieces):
    out = ()
    for p in pieces:
        out += SymStr.parts_of(p)
    return SymStr.make(out)


def model_format(fmt, args, kw):
    if is_sym(fmt):
        fmt = concrete(fmt, "format template")
    f = string.Formatter()
    auto = 0
    pieces = []
    for lit, field, spec, conv in f.parse(fmt):
        if lit:
            pieces.append(lit)
        if field is None:
            continue
        if field == "" or field[:1] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = f.get_field(field, args, kw)
        if spec and "{" in spec:
            spec = concrete(model_format(spec, args[auto:], kw))
        pieces.append(text_of(obj, conv, spec or ""))
    return join_parts(pieces)


def model_mod(fmt, args):
    if is_sym(fmt):
        return concrete(fmt, "% template") % concrete(args)
    if not isinstance(args, tuple):
        args = (args,)
    pieces = []
    pos = 0
    n = 0
    for m in re.finditer(r"%(?P<flags>[-#0 +]*)(?P<w>\d*)(?P<p>(\.\d+)?)(?P<c>[a-zA-Z%])", fmt):
        pieces.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group("c") == "%":
            pieces.append("%")
            continue
        a = args[n]
        n += 1
        simple = not (m.group("flags") or m.group("w") or m.group("p"))
        if not has_sym(a):
            pieces.append(m.group(0) % (a,))
        elif simple and m.group("c") in "sdir":
            pieces.append(text_of(a, "r" if m.group("c") == "r" else None))
        else:
            pieces.append(m.group(0) % (concrete(a, "% operand"),))
    pieces.append(fmt[pos:])
    if n != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return join_parts(pieces)


# ---------------------------------------------------------------- conversions
def m_int(cls, x=0, base=None):
    t = type(x)
    if base is not None:
        return cls(concrete(x), concrete(base))
    if t in (SymInt, SymBitLen, SymBool):
        return mkint(int_expr(x)) if cls is int else _sub_int(cls, int_expr(x))
    if t is SymFloat and isinstance(x.e, IntF):
        if branch(representable(x.e.n, x.e.mant)):
            return mkint(x.e.n)
        return cls(x.concrete("int(float)"))
    if t is SymFloat:
        if branch(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e))):
            raise ValueError("cannot convert float NaN to integer")
        return cls(x.concrete("int(float)"))
    if t in (SymStr, SymBytes):
        parts = x.parts
        if len(parts) == 1 and isinstance(parts[0], Opaque) and parts[0].kind == "dec":
            return mkint(parts[0].payload) if cls is int else _sub_int(cls, parts[0].payload)
        return _parse_int(cls, x)
    if t is SymArray:
        if x.blob is not None and x._dtype.itemsize == 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        if x.ndim == 0:
            return m_int(cls, x.item())
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    return cls(concrete(x, "int()"))


def _parse_int(cls, x):
    parts = x.parts
    if plain(parts) and len(parts) <= 4 and parts:
        isd = [(z3.And(z3.UGE(p, 48), z3.ULE(p, 57)) if is_z3(p) else 48 <= p <= 57) for p in parts]
        if branch(zand(*isd)):
            v = 0
            for p in parts:
                d = (z3.BV2Int(p) - 48) if is_z3(p) else p - 48
                v = v * 10 + d
            return mkint(v) if cls is int else _sub_int(cls, v)
        # a character which never occurs in the text of a number
        special = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 43, 45, 95]
        bad = [z3.And(z3.ULT(p, 128), z3.Not(d), *[p != c for c in special]) if is_z3(p) else (p < 128 and not d and p not in special) for p, d in zip(parts, isd)]
        if branch(z3.Or(*[b if is_z3(b) else z3.BoolVal(b) for b in bad])):
            raise ValueError("invalid literal for int() with base 10")
        for p, d in zip(parts, isd):
            if not is_z3(p):
                continue
            for c in special:
                if branch(p == c):
                    break
            else:
                for c in range(48, 58):
                    if branch(p == c):
                        break
    return cls(x.concrete("int(str)"))


def _sub_int(cls, e):
    if not is_z3(e):
        return cls(e)
    if cls.__new__ is int.__new__ and cls.__init__ is object.__init__:
        return SymInt(e, cls)
    return cls(concrete(mkint(e), "int subclass constructor"))


def m_float(cls, x=0.0):
    t = type(x)
    if t is SymFloat:
        if isinstance(x.e, IntF):
            return mkfloat(x.e, cls)
        return mkfloat(as_fp64(x.e), cls)
    if t in (SymInt, SymBitLen):
        lim = (2 ** 53 - 1) * 2 ** 971
        if INT_BITS > 1000 and not branch(z3.And(x.e <= lim, x.e >= -lim)):
            raise OverflowError("int too large to convert to float")
        return mkfloat(IntF(x.e), cls)
    if t is SymStr:
        p = x.parts
        if len(p) == 1 and isinstance(p[0], Opaque) and p[0].kind == "repr" and not is_cplx(p[0].payload):
            return mkfloat(float_raw(p[0].payload), cls) if not isinstance(float_raw(p[0].payload), float) else p[0].payload
        if len(p) == 1 and isinstance(p[0], Opaque) and p[0].kind == "dec":
            return mkfloat(IntF(p[0].payload), cls)
    if t is SymArray and x.ndim == 0:
        return m_float(cls, x.item())
    return cls(concrete(x, "float()"))


def m_complex(cls, x=0, *y):
    t = type(x)
    if not y:
        if t is SymComplex:
            return SymComplex(raw64(x.re), raw64(x.im), cls)
        if t is SymFloat:
            return SymComplex(raw64(x.e), 0.0, cls)
        if t is SymInt:
            return SymComplex(IntF(x.e), 0.0, cls)
        if t is SymStr:
            p = x.parts
            if len(p) == 1 and isinstance(p[0], Opaque) and p[0].kind == "repr":
                v = p[0].payload
                if is_cplx(v):
                    return v
                return SymComplex(raw64(v.e), 0.0, cls)
        if t is SymArray and x.ndim == 0:
            return m_complex(cls, x.item())
    elif len(y) == 1 and type(x) in (SymFloat, float) and type(y[0]) in (SymFloat, float):
        return SymComplex(float_raw(x), float_raw(y[0]), cls)
    return cls(concrete(x), *[concrete(v) for v in y])


def m_bool(cls, x=False):
    if type(x) in SYMSET or type(x) in EXTRA_SYM:
        return bool(x)
    return bool(x)


def m_str(cls, x="", *enc, **kw):
    if enc or kw:
        if type(x) is SymBytes:
            r = SymBytes(x.parts).decode(*enc, **kw)
        elif type(x) is SymArray:
            b = raw_bytes(x)
            r = b.decode(*enc, **kw)
        else:
            r = str(concrete(x), *enc, **kw)
    elif type(x) is SymStr:
        r = SymStr.make(x.parts)
    else:
        r = text_of(x)
    return _sub_str(cls, r)


def _sub_str(cls, r):
    if cls is str:
        return r
    if type(r) is SymStr:
        if cls.__new__ is str.__new__ and cls.__init__ is object.__init__ or cls is np.str_:
            return SymStr(r.parts, cls)
        return cls(concrete(r, "str subclass constructor"))
    return cls(r)


def bytes_parts(x, *enc, **kw):
    t = type(x)
    if t is SymStr:
        if not enc and not kw:
            raise TypeError("string argument without an encoding")
        r = x.encode(*enc, **kw)
        return SymBytes.parts_of(r)
    if t is SymBytes:
        return x.parts
    if t is SymArray:
        return SymBytes.parts_of(raw_bytes(x))
    if t in (SymInt, SymBitLen):
        return None
    if type(x) in (list, tuple) and has_sym(x):
        out = []
        for y in x:
            if type(y) is SymInt:
                if not branch(z3.And(y.e >= 0, y.e < 256)):
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(int_to_byte(y.e))
            else:
                out.append(int(concrete(y)))
        return tuple(out)
    return None


def m_bytes(cls, x=b"", *enc, **kw):
    p = bytes_parts(x, *enc, **kw)
    if p is None:
        return cls(concrete(x), *enc, **kw)
    if cls is memoryview and type(x) is SymStr:
        raise TypeError("memoryview: a bytes-like object is required, not 'str'")
    r = SymBytes.make(p, cls if cls in (bytes, bytearray, memoryview) else bytes)
    if cls in (bytes, bytearray, memoryview):
        return r
    if type(r) is SymBytes:
        if cls.__new__ is bytes.__new__ and cls.__init__ is object.__init__ or cls is np.bytes_:
            return SymBytes(r.parts, cls)
        return cls(concrete(r))
    return cls(r)


def m_memoryview(cls, x):
    if type(x) is SymArray and x.ndim == 0:
        return cls(concrete(x))
    if type(x) is SymArray and not (x._dtype.itemsize == 1):
        return cls(concrete(x))
    return m_bytes(memoryview, x)


def m_list(cls, x=()):
    if type(x) is SymArray and x.ndim == 0:
        raise TypeError("iteration over a 0-d array")
    items = list(iter(x))
    return items if cls is list else cls(items)


def m_tuple(cls, x=()):
    if type(x) is SymArray and x.ndim == 0:
        raise TypeError("iteration over a 0-d array")
    items = tuple(iter(x))
    return items if cls is tuple else cls(items)


def m_set(cls, x=()):
    items = list(iter(x))
    for y in items:
        check_hashable(y)
    if has_sym(items):
        return SSet(cls, items)
    return cls(items)


def m_dict(cls, x=(), **kw):
    if cls.__init__ is not dict.__init__ or (cls.__new__ is not dict.__new__):
        # subclass with its own constructor: contract = mapping or pairs, checked for the known ones
        if cls is collections.Counter:
            if not (type(x) is SDict or isinstance(x, dict)):
                return cls(concrete(x))
        elif cls is not collections.OrderedDict and cls.__init__ not in (dict.__init__, collections.OrderedDict.__init__):
            return cls(x, **kw)
    pairs = pairs_of(x)
    if not any(has_sym(k) for k, _ in pairs):
        d = cls()
        for k, v in pairs:
            d[k] = v
        d.update(kw)
        return d
    d = SDict(cls)
    for k, v in pairs:
        check_hashable(k)
        d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


def m_len(x):
    if is_sym_str(x):
        return mkint(x.length())
    if type(x) is SymArray:
        if not x._shape:
            raise TypeError("len() of unsized object")
        return mkint(x._shape[0])
    return len(x)


def m_type(*a, **k):
    if len(a) == 1 and not k:
        # objects of the model pose as what they stand for, any other may claim a class it has not
        return a[0].__class__ if type(a[0]).__module__.startswith("sx.") else type(a[0])
    return type(*a, **k)


def m_ord(x):
    p = x.parts
    if len(p) != 1 or isinstance(p[0], Opaque):
        return ord(concrete(x))
    return mkint(z3.BV2Int(p[0]) if is_z3(p[0]) else p[0])


def m_chr(x):
    if type(x) is SymInt:
        if not branch(z3.And(x.e >= 0, x.e < 0x110000)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr.make((z3.Int2BV(x.e, CH),))
    return chr(concrete(x))


def m_map(f, *its):
    return iter([call(f, *xs) for xs in zip(*its)])


def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    keyed = [(call(key, x) if key else x, x) for x in items]
    out = []
    for kx in keyed:                      # insertion sort, stable
        i = len(out)
        while i > 0 and branch(zbool(lt(kx[0], out[i - 1][0]))):
            i -= 1
        out.insert(i, kx)
    res = [x for _, x in out]
    if reverse:
        res.reverse()
    return res


def lt(a, b):
    if type(a) is tuple and type(b) is tuple:
        for x, y in zip(a, b):
            if branch(zbool(x == y)):
                continue
            return zbool(lt(x, y))
        return len(a) < len(b)
    return a < b


# ---------------------------------------------------------------- numpy
def nested_shape(x):
    """shape of nested lists/tuples/arrays, None when inhomogeneous"""
    if type(x) is SymArray:
        return tuple(x._shape)
    if isinstance(x, np.ndarray) and not is_sym(x):
        return x.shape
    if type(x) in (list, tuple):
        shapes = [nested_shape(y) for y in x]
        if not shapes:
            return (0,)
        if any(s is None or s != shapes[0] for s in shapes):
            return None
        return (len(x),) + shapes[0]
    return ()


def flatten(x):
    if type(x) is SymArray:
        return [x.scalar(e) for e in x._need_elems()]
    if isinstance(x, np.ndarray) and not is_sym(x):
        return list(x.reshape(-1))
    if type(x) in (list, tuple):
        return [z for y in x for z in flatten(y)]
    return [x]


def infer_dtype(items):
    dts = []
    for x in items:
        if type(x) is SymInt and not issubclass(x.cls, np.generic):
            if branch(z3.And(x.e >= -2 ** 63, x.e < 2 ** 63)):
                dts.append(np.dtype("i8"))
            elif branch(z3.And(x.e >= 0, x.e < 2 ** 64)):
                dts.append(np.dtype("u8"))
            else:
                return np.dtype(object)
        elif type(x) is SymStr:
            dts.append(np.dtype("U%d" % max(len(x.need_plain("array of str")), 1)))
        elif type(x) is SymBytes:
            dts.append(np.dtype("S%d" % max(len(x.need_plain("array of bytes")), 1)))
        elif is_sym(x) and type(x) in (SymInt, SymFloat, SymComplex):
            dts.append(sym.scalar_dtype(x.cls))
        elif is_sym(x):
            return np.dtype(object)
        else:
            dts.append(np.asarray(x).dtype)
    if not dts:
        return np.dtype("f8")
    try:
        return np.result_type(*dts)
    except TypeError:
        return np.dtype(object)


def model_array(x, dtype=None, copy=True, ndmin=0, cls=np.ndarray, subok=False):
    dtype = np.dtype(dtype) if dtype is not None else None
    if type(x) is SymMasked:
        x = x.data
    if type(x) is SymArray:
        r = x if dtype is None or dtype == x._dtype else None
        if r is None:
            if dtype.kind in "SU" and dtype.itemsize == 0:
                # default width conversion
                w = x._dtype.itemsize // (4 if x._dtype.kind == "U" else 1)
                dtype = np.dtype("%s%d" % (dtype.kind, w))
            r = x.astype(dtype)
        elif copy:
            r = x.copy()
        r = r.copy() if r is x and copy else r
        if not subok:
            if r is x and r.cls is not cls:
                r = r.copy()
            r.cls = cls
        return r
    if type(x) is SymBytes and x.cls in (bytearray, memoryview):
        return bytes_array(x, "u1") if dtype is None else bytes_array(x, "u1").astype(dtype)
    if type(x) in (SSet, SDict):
        r = np.empty((), object)
        r.fill(x)
        return r
    if is_sym(x):
        if dtype is None or dtype.kind != "O":
            if type(x) is SymInt and not issubclass(x.cls, np.generic):
                dt = dtype or infer_dtype([x])
                if dt.kind == "O":
                    r = np.empty((), object)
                    r.fill(x)
                    return r
                return SymArray(dt, (), [raw_of(x, dt)])
            a = to_symarray(x)
            if dtype is not None and dtype != a._dtype:
                if dtype.kind in "SU" and dtype.itemsize == 0:
                    pass
                else:
                    a = a.astype(dtype)
            return a
        r = np.empty((), object)
        r.fill(x)
        return r
    # containers
    if type(x) in (list, tuple):
        shape = nested_shape(x)
        if dtype is not None and dtype.kind == "O":
            if shape is None:
                depth = common_depth(x)
                return fill_object(x, depth)
            return fill_object(x, shape)
        if shape is None:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        items = flatten(x)
        dt = dtype if dtype is not None and not (dtype.kind in "SU" and dtype.itemsize == 0) else infer_dtype(items)
        if dt.kind == "O":
            return fill_object(x, shape)
        return SymArray(dt, shape, [elem_raw(v, dt) for v in items])
    return NotImplemented


def elem_raw(v, dt):
    if dt.kind == "U" and type(v) is SymStr:
        p = tuple(v.need_plain("U element"))
        n = dt.itemsize // 4
        return p[:n] + (0,) * (n - len(p))
    return raw_of(v, dt)


def common_depth(x):
    """shape numpy gives an inhomogeneous nested sequence for dtype=object"""
    shape = ()
    level = [x]
    while all(type(y) in (list, tuple) for y in level) and len({len(y) for y in level}) == 1:
        shape += (len(level[0]),)
        level = [z for y in level for z in y]
        if not level:
            break
    return shape


def fill_object(x, shape):
    r = np.empty(shape, object)
    for idx in np.ndindex(*shape):
        v = x
        for i in idx:
            v = v[i]
        t = np.empty((), object)
        t.fill(v)
        r[idx] = t
    return r


def np_array(*a, **k):
    args = dict(zip(("object", "dtype"), a))
    args.update(k)
    x = args.pop("object", None)
    if "a" in args:
        x = args.pop("a")
    copy = args.pop("copy", True)
    r = model_array(x, args.get("dtype"), copy is not False and copy is not None, subok=args.get("subok", False))
    if r is NotImplemented:
        return NotImplemented
    return r


def np_asarray(*a, **k):
    args = dict(zip(("a", "dtype"), a))
    args.update(k)
    x = args.get("a")
    return model_array(x, args.get("dtype"), False)


def np_asanyarray(*a, **k):
    args = dict(zip(("a", "dtype"), a))
    args.update(k)
    return model_array(args.get("a"), args.get("dtype"), False, subok=True)


def np_ndim(x):
    if type(x) in (SymArray, SymMasked):
        return len(x.shape)
    if type(x) in (list, tuple):
        s = nested_shape(x)
        if s is None:
            raise ValueError("setting an array element with a sequence.")
        return len(s)
    if type(x) is SymBytes and x.cls is not bytes:
        return 1 if x.cls in (bytearray, memoryview) else 0
    return 0


def np_shape(x):
    if type(x) is SymArray:
        return x.shape
    s = nested_shape(x)
    if s is None:
        raise ValueError("inhomogeneous")
    return s


def np_stack(arrays, axis=0, **k):
    arrs = [to_symarray(a) for a in arrays]
    shape = arrs[0]._shape
    dt = np.result_type(*[a._dtype for a in arrs])
    idx = np.stack([np.arange(i * len(arrs[0].elems), (i + 1) * len(arrs[0].elems)).reshape(shape) for i in range(len(arrs))], axis=axis)
    flat = [cast_raw(e, a._dtype, dt) for a in arrs for e in a.elems]
    return SymArray(dt, idx.shape, [flat[int(i)] for i in idx.ravel()])


def np_array_equal(a, b, equal_nan=False):
    a, b = to_symarray(a), to_symarray(b)
    if a._shape != b._shape:
        return False
    return branch(zand(*[zbool(raw_eq(x, a._dtype, y, b._dtype)) for x, y in zip(a.elems, b.elems)]))


def np_ma_array(data=None, dtype=None, mask=np.ma.nomask, **k):
    if type(data) is SymMasked:
        if mask is np.ma.nomask:
            mask = data.mask
        data = data.data
    d = model_array(data, dtype, True)
    if mask is np.ma.nomask or type(mask) is SymArray:
        m = mask
    else:
        if type(mask).__name__ == "Dataset" and hasattr(type(mask), "__getitem__"):
            mask = mask[()]
        m = mask if type(mask) is SymArray else np.ma.make_mask(mask) if not has_sym(mask) else model_array(mask, bool)
    return SymMasked(d, m, dtype, k.get("fill_value"))


def np_scalar(cls, *a, **k):
    """numpy scalar constructor"""
    if not a:
        return cls()
    x = a[0]
    if cls is np.str_:
        return m_str(np.str_, x, *a[1:], **k)
    if cls is np.bytes_:
        return m_bytes(np.bytes_, x, *a[1:], **k)
    try:
        dt = np.dtype(cls)
    except TypeError:
        return cls(concrete(x))
    if dt.kind not in "iubfc" or (dt.kind == "f" and dt.itemsize > 8) or (dt.kind == "c" and dt.itemsize > 16):
        return cls(concrete(x))
    if type(x) is SymStr or (type(x) is SymBytes):
        if dt.kind in "iu":
            return mkint(raw_of(m_int(int, x), dt), cls)
        if dt.kind == "f":
            return mkfloat_raw(float_raw(m_float(float, x)), cls)
        return cls(concrete(x))
    if type(x) is SymArray:
        if x.ndim:
            return x.astype(dt)
        return wrap_raw(dt, cast_raw(x.elems[0], x._dtype, dt))
    if type(x) in (list, tuple):
        return model_array(x, dt)
    if type(x) in (SymInt, SymBitLen, SymFloat, SymComplex):
        return wrap_raw(dt, raw_of(x, dt))
    return cls(concrete(x))


def np_matrix(cls, data=None, dtype=None, copy=True):
    a = model_array(data, dtype, True)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(1, a._shape[0])
    elif a.ndim > 2:
        raise ValueError("matrix must be 2-dimensional")
    a = a.copy()
    a.cls = cls
    return a


# ---------------------------------------------------------------- pickle
def deep_sym_copy(x, memo=None):
    """what pickle.loads(pickle.dumps(x)) returns: same structure, fresh containers"""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    t = type(x)
    if t is list:
        r = memo[id(x)] = []
        r.extend(deep_sym_copy(y, memo) for y in x)
        return r
    if t is tuple:
        r = memo[id(x)] = tuple(deep_sym_copy(y, memo) for y in x)
        return r
    if t is dict:
        r = memo[id(x)] = {}
        for k, v in x.items():
            r[deep_sym_copy(k, memo)] = deep_sym_copy(v, memo)
        return r
    if t is SDict:
        r = memo[id(x)] = SDict(x.cls)
        r.pairs = [[deep_sym_copy(k, memo), deep_sym_copy(v, memo)] for k, v in x.pairs]
        return r
    if t is SSet:
        r = memo[id(x)] = SSet(x.cls)
        r.members = [deep_sym_copy(y, memo) for y in x.members]
        return r
    if t is SymArray:
        r = memo[id(x)] = x.copy()
        return r
    if is_sym(x):
        return x
    if hasattr(x, "__dict__") and not isinstance(x, type) and has_sym(vars(x)):
        r = memo[id(x)] = x.__class__.__new__(x.__class__)
        r.__dict__.update({k: deep_sym_copy(v, memo) for k, v in vars(x).items()})
        return r
    return pickle.loads(pickle.dumps(x))


def _mk_sdict(cls, pairs):
    r = SDict(cls)
    r.pairs = [list(p) for p in pairs]
    return r


def _mk_sset(cls, members):
    r = SSet(cls)
    r.members = list(members)
    return r


class _Pickler(pickle.Pickler):
    """pickle itself, symbolic values replaced by their number"""

    def persistent_id(self, x):
        t = type(x)
        if t in (SDict, SSet) or not is_sym(x):
            return None
        self.table.append(x.copy() if t is SymArray else x)
        return len(self.table) - 1

    def reducer_override(self, x):
        t = type(x)
        if t is SDict:
            self.count += 1
            return _mk_sdict, (x.cls, [tuple(p) for p in x.pairs])
        if t is SSet:
            self.count += 1
            return _mk_sset, (x.cls, list(x.members))
        return NotImplemented


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, n):
        x = self.table[n]
        return x.copy() if type(x) is SymArray else x


def m_pickle_dumps(obj, protocol=None, **k):
    buf = io.BytesIO()
    p = _Pickler(buf, protocol, **k)
    p.table, p.count = [], 0
    p.dump(obj)
    if not p.table and not p.count:
        return buf.getvalue()
    L = fresh("picklelen", z3.IntSort())
    engine().assume(z3.And(L >= 4, L <= 4096))
    return SymBytes((Opaque("pickle", (buf.getvalue(), p.table), L),))


def m_pickle_loads(data, *a, **k):
    parts = None
    if type(data) is SymArray and data.blob is not None:
        parts = data.blob.parts
    elif type(data) is SymBytes:
        parts = data.parts
    if parts is not None and len(parts) == 1 and isinstance(parts[0], Opaque) and parts[0].kind == "pickle":
        u = _Unpickler(io.BytesIO(parts[0].payload[0]))
        u.table = parts[0].payload[1]
        return u.load()
    return pickle.loads(concrete(data), *a, **k)


def m_deepcopy(x, memo=None):
    return deep_sym_copy(x)


def m_copy(x):
    if type(x) in (SymArray, SDict, SSet):
        return x.copy()
    if is_sym(x):
        return x
    return _copy.copy(x)


def m_literal_eval(x):
    import ast
    if type(x) is SymStr and plain(x.parts) and len(x.parts) >= 2:
        q, body = x.parts[0], x.parts[1:-1]
        if not is_z3(q) and q in (34, 39) and not is_z3(x.parts[-1]) and x.parts[-1] == q:
            # a quoted text without anything that needs parsing
            if not branch(zor(*[part_eq(p, c) for p in body for c in (q, 92, 10, 13, 0)])):
                return SymStr.make(body)
    return ast.literal_eval(concrete(x, "literal_eval"))


def m_iter(x, *a):
    return iter(x, *a)


def m_length_hint(x, d=0):
    if is_sym_str(x):
        return mkint(x.length())
    if type(x) in (SymArray, SDict, SSet):
        return len(x) if type(x) is not SymArray or x.ndim else d
    return d


def m_repr(x):
    return text_of(x, "r")


def m_ascii(x):
    return ascii(concrete(x))


def m_fstr_format(x, spec=""):
    return text_of(x, None, spec)


def absent(x, name):
    """name is an attribute of the proxy only, not of what it stands for"""
    t = type(x)
    if t in (SymInt, SymBitLen, SymFloat, SymComplex, SymStr, SymBytes) and isinstance(name, str) and not name.startswith("__"):
        cls = x.cls if isinstance(x.cls, type) else None
        return cls is not None and not hasattr(cls, name)
    return False


def m_getattr(x, name, *default):
    if absent(x, name):
        if default:
            return default[0]
        raise AttributeError("%r object has no attribute %r" % (x.cls.__name__, name))
    return getattr(x, name, *default)


def m_hasattr(x, name):
    return not absent(x, name) and hasattr(x, name)


def np_frombuffer(buffer, dtype=float, count=-1, offset=0, **k):
    if type(buffer) is not SymBytes or count != -1 or type(offset) is not int or k:
        return NotImplemented
    dtype = np.dtype(dtype)
    if dtype.itemsize != 1:
        return NotImplemented
    if offset:
        buffer = buffer[offset:]
    r = model_array(m_memoryview(memoryview, buffer), None, False)
    if type(r) is SymArray and dtype != r.dtype:
        r.dtype = dtype
    return r


def np_reshape(a, *shape, **k):
    return a.reshape(*shape, **k) if type(a) is SymArray else NotImplemented


def np_ravel(a, *x, **k):
    return a.ravel(*x, **k) if type(a) is SymArray else NotImplemented


def np_atleast_1d(*arys):
    if len(arys) != 1 or type(arys[0]) is not SymArray:
        return NotImplemented
    a = arys[0]
    return a if a.ndim else a.reshape(1)


# C callables by identity.  value: function(*args, **kw), may return NotImplemented
MODELS = {
    len: m_len, id: model_id, type: m_type, ord: m_ord, chr: m_chr, map: m_map, sorted: m_sorted,
    repr: m_repr, ascii: m_ascii, format: m_fstr_format, operator.length_hint: m_length_hint,
    np.array: np_array, np.asarray: np_asarray, np.asanyarray: np_asanyarray, np.ascontiguousarray: np_asarray,
    np.any: lambda a, *x, **k: _np_quant('any', a, x, k), np.all: lambda a, *x, **k: _np_quant('all', a, x, k),
    np.ndim: np_ndim, np.shape: np_shape, np.stack: np_stack, np.array_equal: np_array_equal,
    np.ma.array: np_ma_array, np.ma.masked_array: np_ma_array,
    pickle.dumps: m_pickle_dumps, pickle.loads: m_pickle_loads,
    getattr: m_getattr, hasattr: m_hasattr, np.frombuffer: np_frombuffer, np.reshape: np_reshape, np.ravel: np_ravel,
    np.atleast_1d: np_atleast_1d,
    _copy.deepcopy: m_deepcopy, _copy.copy: m_copy,
}
import ast as _ast
MODELS[_ast.literal_eval] = m_literal_eval
# iterators which hand out the items they are given
PASS_CLASSES = {itertools.chain, itertools.product, itertools.islice, itertools.zip_longest, itertools.count, itertools.repeat,
                itertools.cycle, itertools.accumulate, itertools.pairwise, itertools.permutations, itertools.combinations, itertools.compress,
                collections.deque}

# C callables that may see proxies without harm
NATIVE = {
    isinstance, issubclass, setattr, iter, next, enumerate, zip, callable, reversed,
    any, all, print, vars, super, property, staticmethod, classmethod, sum, min, max, filter, slice, object,
    range, Exception, ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, LookupError,
    abs, divmod, delattr, itertools.tee,
}


def m_reduce(fn, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(fn, acc, x)
    return acc


def m_isnan(x):
    return x != x if type(x) is SymFloat else NotImplemented


def _np_quant(which, a, x, k):
    if x or k:
        return NotImplemented
    if type(a) is SymBool:
        return a
    if type(a) is SymArray and a.dtype.kind in "biu" and a.blob is None:
        return getattr(a, which)()
    return NotImplemented


def op_models():
    o = operator
    m = {functools.reduce: m_reduce, math.isnan: m_isnan, o.contains: lambda c, x: contains(x, c),
         o.getitem: lambda x, i: getitem(x, i), o.setitem: lambda x, i, v: setitem(x, i, v),
         o.is_: lambda x, y: x is y, o.is_not: lambda x, y: x is not y, o.not_: lambda x: not x, o.truth: lambda x: bool(x)}
    for n in "eq ne lt le gt ge add sub mul truediv floordiv mod and_ or_ xor lshift rshift neg pos invert concat index".split():
        f = getattr(o, n)
        m[f] = f
    return m
CONVERT = [(bool, m_bool), (int, m_int), (float, m_float), (complex, m_complex), (str, m_str),
           (bytes, m_bytes), (bytearray, m_bytes), (memoryview, m_memoryview),
           (list, m_list), (tuple, m_tuple), (set, m_set), (frozenset, m_set), (dict, m_dict)]


def py_level_class(cls):
    """class whose construction is ordinary Python code (safe with proxies)"""
    n, i = cls.__new__, cls.__init__
    return isinstance(n, types.FunctionType) or isinstance(i, types.FunctionType)


def construct(cls, a, k):
    if issubclass(cls, type) or issubclass(cls, BaseException):
        return cls(*a, **k)
    if cls in (enumerate, zip, reversed, range, slice, map, filter, property, super, staticmethod, classmethod):
        if cls is map:
            return m_map(*a)
        return cls(*a, **k)
    if cls in PASS_CLASSES:
        return cls(*a, **k)
    if cls is itertools.starmap:
        return iter([call(a[0], *x) for x in a[1]])
    if cls is itertools.takewhile or cls is itertools.dropwhile or cls is itertools.filterfalse:
        return cls(functools.partial(call, a[0]), a[1])
    if issubclass(cls, np.matrix):
        return np_matrix(cls, *a, **k)
    if issubclass(cls, np.generic):
        return np_scalar(cls, *a, **k)
    if issubclass(cls, np.ma.MaskedArray):
        r = np_ma_array(*a, **k)
        r.cls = cls
        return r
    sp = sparse_classes()
    if cls in sp:
        return construct_sparse(cls, *a, **k)
    hook = OBJECT_CTORS.get(cls)
    if hook is not None:
        return hook(cls, *a, **k)
    if not issubclass(cls, np.ndarray):
        for base, fn in CONVERT:
            if issubclass(cls, base):
                if cls is not base and py_level_class(cls) and base not in (dict,):
                    return cls(*a, **k)
                return fn(cls, *a, **k)
    if py_level_class(cls):
        return cls(*a, **k)
    if cls.__new__ is object.__new__ and cls.__init__ is object.__init__:
        return cls(*a, **k)
    engine().note_incomplete("concretised: %s()" % cls.__name__)
    return cls(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})


OBJECT_CTORS = {}
_sparse = None


def sparse_classes():
    global _sparse
    if _sparse is None:
        try:
            import scipy.sparse as ss
            _sparse = {ss.csr_matrix, ss.csc_matrix, ss.bsr_matrix, ss.coo_matrix}
        except ImportError:
            _sparse = set()
    return _sparse


def construct_sparse(cls, arg, shape=None, dtype=None, copy=False, **k):
    if type(arg) is tuple and len(arg) == 3:
        d, i, p = arg
        d = model_array(d, dtype, True) if has_sym(d) or dtype is not None and type(d) is SymArray else np.array(d, dtype=dtype)
        return SymSparse(cls, d, i, p, tuple(shape) if shape is not None else None, dtype)
    if type(arg) is SymSparse:
        return SymSparse(cls, arg.data, arg.indices, arg.indptr, arg.shape, dtype or arg.dtype)
    return cls(concrete(arg), shape=concrete(shape), dtype=dtype)


def dict_method(d, name, a, k):
    """method of a real dict called with a symbolic key, or holding symbolic keys"""
    key = a[0] if a else None
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "__delitem__") and a:
        found, real = real_dict_find(d, key)
        if name == "__contains__":
            return found
        if name == "get":
            return d_raw_get(d, real) if found else (a[1] if len(a) > 1 else k.get("default"))
        if name == "__getitem__":
            if found:
                return d_raw_get(d, real)
            return NotImplemented
        if name == "pop":
            if found:
                v = d_raw_get(d, real)
                d_raw_del(d, real)
                return v
            if len(a) > 1:
                return a[1]
            raise KeyError("symbolic key")
        if name == "setdefault":
            if found:
                return d_raw_get(d, real)
            d_raw_set(d, key, a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        if name == "__setitem__":
            d_raw_set(d, real if found else key, a[1])
            return None
    return NotImplemented


def d_raw_get(d, real):
    for k, v in dict.items(d):
        if k is real:
            return v
    return dict.__getitem__(d, real)


def d_raw_set(d, key, v):
    check_hashable(key)
    if has_sym(key):
        SYMDICTS[id(d)] = d
    dict.__setitem__(d, key, v)


def d_raw_del(d, real):
    dict.pop(d, real)


DICT_KEY_METHODS = {"get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "__delitem__"}


def builtin_method(f, owner, a, k):
    """bound method of a C object"""
    name = f.__name__
    if isinstance(owner, str) and not is_sym(owner):
        if name == "format":
            return model_format(owner, a, k)
        if name == "join":
            return SymStr((), str).__class__ and SymStr(tuple(map(ord, owner)), str).join(a[0])
        r = getattr(SymStr(tuple(map(ord, owner)), str), name)
        if name in ("startswith", "endswith", "split", "rsplit", "replace", "find", "partition", "rpartition", "strip", "lstrip", "rstrip", "index"):
            return r(*a, **k)
        return getattr(owner, name)(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})
    if isinstance(owner, (bytes, bytearray)) and not is_sym(owner):
        s = SymBytes(tuple(owner), bytes)
        if name in ("join", "startswith", "endswith", "split", "rsplit", "replace", "find", "partition", "strip", "lstrip", "rstrip"):
            return getattr(s, name)(*a, **k)
        return getattr(owner, name)(*[concrete(x) for x in a], **k)
    if isinstance(owner, dict) and not is_sym(owner):
        if name in DICT_KEY_METHODS and a:
            if has_sym(a[0]) or id(owner) in SYMDICTS:
                r = dict_method(owner, name, a, k)
                if r is not NotImplemented:
                    return r
            return f(*a, **k)
        if name == "update":
            for key, v in (pairs_of(a[0]) if a else []):
                setitem(owner, key, v)
            for key, v in k.items():
                setitem(owner, key, v)
            return None
        return f(*a, **k)
    if isinstance(owner, (set, frozenset)) and not is_sym(owner):
        if name == "add":
            x = a[0]
            check_hashable(x)
            for y in list(owner):
                if y is x or (has_sym(x) or has_sym(y)) and key_eq(y, x):
                    return None
            return f(x)
        if name in ("update", "union"):
            if name == "update":
                for it in a:
                    for x in it:
                        builtin_method(owner.add, owner, (x,), {})
                return None
            return SSet(owner.__class__, list(owner) + [x for it in a for x in it])
        return f(*a, **k)
    if isinstance(owner, (list, tuple, collections.deque)):
        if name in ("index", "count", "remove", "__contains__"):
            x = a[0]
            hits = [i for i, y in enumerate(owner) if y is x or key_eq(y, x)]
            if name == "count":
                return len(hits)
            if name == "__contains__":
                return bool(hits)
            if not hits:
                raise ValueError("not in list")
            if name == "index":
                return hits[0]
            owner.pop(hits[0])
            return None
        if name in ("insert", "pop", "__getitem__", "__setitem__", "sort"):
            a = tuple(int(x) if type(x) is SymInt and i == 0 else x for i, x in enumerate(a))
        return f(*a, **k)
    if isinstance(owner, re.Pattern):
        r = rx_method(owner, name, a, k)
        if r is not NotImplemented:
            return r
        return f(*[concrete(x) for x in a], **k)
    if isinstance(owner, types.GeneratorType):
        return f(*a, **k)
    if isinstance(owner, type):           # classmethod of a C class
        if owner is dict and name == "fromkeys":
            return m_dict(dict, [(x, a[1] if len(a) > 1 else None) for x in a[0]])
        if name in ("__new__",) and issubclass(owner, object):
            return f(*a, **k)
        return f(*[concrete(x) for x in a], **k)
    return NotImplemented


def unbound_method(f, a, k):
    """C method descriptor called with explicit self, e.g. dict.get(d, key)"""
    if not a:
        return f(*a, **k)
    self = a[0]
    if is_sym(self):
        return getattr(self, f.__name__)(*a[1:], **k)
    if f.__name__ in ("__init__", "__new__", "__setattr__", "__getattribute__", "__delattr__", "__init_subclass__"):
        return f(*a, **k)
    bound = getattr(self, f.__name__, None)
    if bound is not None:
        r = builtin_method(bound, self, a[1:], k)
        if r is not NotImplemented:
            return r
    return f(*a, **k)


def call(f, *a, **k):
    """every call of the instrumented code"""
    tf = type(f)
    if tf is types.FunctionType:
        m = FUNC_MODELS.get(f)
        if m is not None and (has_sym_args(a, k)):
            r = m(*a, **k)
            if r is not NotImplemented:
                return r
        return f(*a, **k)
    if tf is types.MethodType:
        return f(*a, **k)
    eng = engine()
    if eng is None:
        return f(*a, **k)
    if f is object.__getattribute__ and a and not is_sym(a[0]) and (len(a) < 2 or not is_sym(a[1])):
        return f(*a, **k)
    if f is id and len(a) == 1:
        return model_id(a[0])
    if isinstance(f, types.BuiltinMethodType) or tf is types.MethodWrapperType:
        owner = f.__self__
        if owner is not None and id(owner) in SYMDICTS and isinstance(owner, dict):
            r = builtin_method(f, owner, a, k)
            if r is not NotImplemented:
                return r
    if tf is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if f is pickle.dumps and a:
        return m_pickle_dumps(*a, **k)
    if not has_sym_args(a, k):
        if isinstance(f, type) and f in (list, tuple, set, dict, sorted) and a and is_sym(a[0]):
            pass
        else:
            return f(*a, **k)
    if isinstance(f, type):
        if f is type:
            return m_type(*a, **k)
        return construct(f, a, k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        r = m(*a, **k)
        if r is not NotImplemented:
            return r
        return fallback(f, a, k)
    try:
        if f in NATIVE:
            return f(*a, **k)
    except TypeError:
        pass
    if isinstance(f, types.BuiltinMethodType) or tf is types.MethodWrapperType:
        owner = getattr(f, "__self__", None)
        if owner is not None and not isinstance(owner, types.ModuleType):
            r = builtin_method(f, owner, a, k)
            if r is not NotImplemented:
                return r
            return fallback(f, a, k)
        return fallback(f, a, k)
    if tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
        return unbound_method(f, a, k)
    if tf is operator.itemgetter or tf is operator.attrgetter or tf is operator.methodcaller:
        return f(*a, **k)
    if isinstance(f, np.ufunc) or (getattr(f, "__module__", None) or "").startswith("numpy"):
        return fallback(f, a, k)
    if not callable(f):
        return f(*a, **k)
    # instances with a python __call__
    if isinstance(type(f).__dict__.get("__call__"), types.FunctionType):
        return f(*a, **k)
    return fallback(f, a, k)


MODELS.update(op_models())


# Python-level library functions that must not be traversed with proxies
FUNC_MODELS = {}
for _f in (np.any, np.all, np.ndim, np.shape, np.stack, np.array_equal, np.ma.array, _copy.deepcopy, _copy.copy, _ast.literal_eval,
           np.asarray, np.array, np.frombuffer, np.reshape, np.ravel, np.atleast_1d):
    if isinstance(_f, types.FunctionType):
        FUNC_MODELS[_f] = MODELS[_f]
for _n, _m in (("search", "search"), ("match", "match"), ("fullmatch", "fullmatch"), ("split", "split"), ("findall", "findall")):
    def _mk(name):
        def run(pattern, s, *a, **k):
            return rx_method(re.compile(pattern, *a, **k), name, (s,), {})
        return run
    FUNC_MODELS[getattr(re, _n)] = _mk(_n)


def _re_sub(pattern, repl, s, count=0, flags=0):
    return rx_sub(re.compile(pattern, flags), repl, s, count) if is_sym_str(s) else NotImplemented


FUNC_MODELS[re.sub] = _re_sub


def has_sym_args(a, k):
    for x in a:
        if has_sym(x):
            return True
    for x in k.values():
        if has_sym(x):
            return True
    return False


SAFE_C = {"append", "extend", "insert", "items", "keys", "values", "close", "flush", "finalize", "warn"}


def fallback(f, a, k):
    name = getattr(f, "__name__", repr(f))
    if name in SAFE_C:
        return f(*a, **k)
    engine().note_incomplete("concretised: call of %s" % name)
    return f(*[concrete(x) for x in a], **{n: concrete(v) for n, v in k.items()})


# ---------------------------------------------------------------- operators
def contains(item, container):
    if engine() is None or is_sym(container):
        return item in container
    if isinstance(container, (dict, set, frozenset)) and (has_sym(item) or id(container) in SYMDICTS):
        if isinstance(container, dict):
            return real_dict_find(container, item)[0]
        return any(x is item or key_eq(x, item) for x in list(container))
    if isinstance(container, (list, tuple)) and has_sym(item):
        return any(x is item or key_eq(x, item) for x in container)
    if isinstance(container, (str, bytes)) and is_sym_str(item):
        like = SymStr if isinstance(container, str) else SymBytes
        if like is not type(item):
            return item in container
        return like(like.parts_of(container)).__contains__(item)
    if isinstance(container, collections.ChainMap) and has_sym(item):
        return any(contains(item, m) for m in container.maps)
    if isinstance(container, (type({}.keys()),)) and has_sym(item):
        return any(x is item or key_eq(x, item) for x in container)
    return item in container


def getitem(o, key):
    if engine() is None or is_sym(o):
        return o[key]
    if isinstance(o, dict) and (has_sym(key) or id(o) in SYMDICTS):
        found, real = real_dict_find(o, key)
        if found:
            return d_raw_get(o, real)
        if hasattr(type(o), "__missing__"):
            return type(o).__missing__(o, key)
        raise KeyError("symbolic key")
    if isinstance(o, (list, tuple, str, bytes)):
        if type(key) in (SymInt, SymBitLen):
            return o[select_index(o, key)]
        if isinstance(key, slice) and has_sym((key.start, key.stop, key.step)):
            return o[key_concrete(key)]
    if isinstance(o, np.ndarray) and has_sym(key):
        return o[key_concrete(key) if type(key) is not SymArray else concrete(key)]
    return o[key]


def select_index(seq, key):
    """fork over the positions of seq the symbolic index may denote"""
    n = len(seq)
    for i in range(n):
        if branch(zor(key.e == i, key.e == i - n)):
            return i
    raise IndexError("index out of range")


def setitem(o, key, value):
    if engine() is None or is_sym(o):
        o[key] = value
        return
    if isinstance(o, dict) and (has_sym(key) or id(o) in SYMDICTS):
        found, real = real_dict_find(o, key)
        d_raw_set(o, real if found else key, value)
        return
    if isinstance(o, list) and type(key) in (SymInt, SymBitLen):
        o[select_index(o, key)] = value
        return
    if type(o) is np.ndarray and has_sym(value):
        if o.dtype.kind == "O":
            if type(value) is np.ndarray and value.dtype.kind == "O":
                o[key] = value
                return
            k = key if type(key) is tuple else (key,)
            if len(k) == o.ndim and all(isinstance(i, (int, np.integer)) for i in k):
                o[key] = value          # one element: the object itself is stored
                return
            t = np.empty((), object)
            t[()] = value
            o[key] = t
            return
        o[key_concrete(key)] = concrete(value, "store into real array")
        return
    o[key] = value


def mod(a, b):
    if engine() is not None and isinstance(a, str) and (is_sym(a) or has_sym(b)):
        return model_mod(a, b)
    return a % b


def fstr(*pieces):
    """pieces: str or (value, conversion, spec)"""
    if engine() is None:
        out = []
        for p in pieces:
            if isinstance(p, str):
                out.append(p)
            else:
                v, c, s = p
                v = {"r": repr, "s": str, "a": ascii}.get(c, lambda x: x)(v)
                out.append(format(v, s))
        return "".join(out)
    return join_parts([p if isinstance(p, str) and not is_sym(p) else text_of(p[0], p[1], p[2]) for p in pieces])


def reraise_control():
    e = sys.exc_info()[1]
    if isinstance(e, EngineControl):
        raise e


def enter(name):
    e = engine()
    if e is not None:
        e.executed.add(name)
