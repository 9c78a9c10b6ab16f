"""class hierarchies over the classes hickle supports, made by program, importable by name"""
import enum
import sys
from collections import OrderedDict
import numpy as np


class Mixin:
    """a base class without any content"""

    def hello(self):
        return "hello"


class Slotted:
    __slots__ = ()


BASES = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict, "ordered": OrderedDict, "str": str, "bytes": bytes, "int": int, "float": float, "complex": complex, "array": np.ndarray}
SHAPES = ["base", "sub", "deep", "deeper", "mixin_first", "mixin_last", "late_mixin", "diamond", "nested", "named_alike"]
CLASSES = {}


def _make(name, bases, qualname=None):
    cls = type(name, bases, {"__module__": __name__, "__qualname__": qualname or name})
    if qualname is None:
        globals()[name] = cls
    return cls


class Outer:
    """classes defined within another one"""


for _n, _b in BASES.items():
    _t = _n.capitalize()
    _c = CLASSES[_n] = {"base": _b}
    _c["sub"] = _make("My" + _t, (_b,))
    _c["deep"] = _make("Deep" + _t, (_c["sub"],))
    _c["deeper"] = _make("Deeper" + _t, (_make("Middle" + _t, (_c["deep"],)),))
    _c["mixin_first"] = _make("First" + _t, (Mixin, _b))
    _c["mixin_last"] = _make("Last" + _t, (_b, Slotted))
    _c["late_mixin"] = _make("Late" + _t, (Mixin, _c["sub"]))
    _c["diamond"] = _make("Diamond" + _t, (_make("Left" + _t, (_c["sub"],)), _make("Right" + _t, (_c["sub"],))))
    _c["nested"] = _make("In" + _t, (_b,), "Outer.In" + _t)
    setattr(Outer, "In" + _t, _c["nested"])
    _c["named_alike"] = _make(_b.__name__, (_b,), "Outer." + _b.__name__)
    setattr(Outer, _b.__name__, _c["named_alike"])


class State:
    """ordinary class"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.v == other.v

    __hash__ = None


class SlotState:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class GetState(State):
    def __getstate__(self):
        return (self.v,)

    def __setstate__(self, s):
        self.v = s[0]


class Reduced:
    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return Reduced, (self.v,)


class NewArgs(State):
    def __new__(cls, v):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (self.v,)


class Iterable(State):
    """could be taken for a sequence"""

    def __iter__(self):
        return iter([self.v])

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return [self.v][i]


class Mapping(State):
    """could be taken for a dict"""

    def keys(self):
        return ["v"]

    def items(self):
        return [("v", self.v)]

    def __getitem__(self, k):
        return self.v


class Arraylike(State):
    def __array__(self, *a, **k):
        return np.array([1, 2, 3])

    shape = (3,)
    dtype = np.dtype("i4")


class Meta(type):
    pass


class MetaState(State, metaclass=Meta):
    pass


class Falsy(State):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


PICKLED = [State, SlotState, GetState, Reduced, NewArgs, Iterable, Mapping, Arraylike, MetaState, Falsy]


def function():
    return 1


class OrList(list):
    """constructor which tests whether there is anything"""

    def __init__(self, items=None):
        super().__init__(items or ())


class OrSet(set):
    def __init__(self, items=None):
        super().__init__(items or ())


class OrTuple(tuple):
    def __new__(cls, items=None):
        return tuple.__new__(cls, items or ())


class OrDict(dict):
    def __init__(self, items=None):
        super().__init__(items or {})


class OrBytes(bytes):
    def __new__(cls, text=None):
        return bytes.__new__(cls, text or b"")


class OrStr(str):
    def __new__(cls, text=None):
        return str.__new__(cls, text or "")


def _strict(base, name):
    def new(cls, value):
        if not isinstance(value, base):
            raise TypeError("%s expected, not %s" % (base.__name__, value.__class__.__name__))
        return base.__new__(cls, value)
    return type(name, (base,), {"__module__": __name__, "__new__": new})


StrictInt, StrictFloat, StrictComplex = _strict(int, "StrictInt"), _strict(float, "StrictFloat"), _strict(complex, "StrictComplex")
StrictStr, StrictBytes = _strict(str, "StrictStr"), _strict(bytes, "StrictBytes")


class Level(enum.IntEnum):
    LOW = -1
    NONE = 0
    HIGH = 2 ** 31
    HUGE = 2 ** 70
    DEEP = -2 ** 63


class Word(str, enum.Enum):
    A = "a"
    EMPTY = ""
    SLASH = "a/b"


class Share(float, enum.Enum):
    HALF = 0.5
    BIG = 1e300


class Flags(enum.IntFlag):
    A = 1
    B = 2
    C = 2 ** 65


PICKY = {"orlist": (OrList, [[], [1], [1, 2], [1.5, 2.5], [True, False], ["a"], [1, "a"], [2 ** 70, 1], [[1], [2]]]),
         "orset": (OrSet, [[], [1], [1, 2], [1.5, 2.5], ["a", "b"], [1, "a"], [(1, 2), 3]]),
         "ortuple": (OrTuple, [[], [1], [1, 2], ["a"], [1, "a"]]),
         "ordict": (OrDict, [{}, {"a": 1}, {1: 2, "b": [1]}]),
         "orbytes": (OrBytes, [b"", b"a", b"ab\0", b"\xff" * 30]),
         "orstr": (OrStr, ["", "a", "ab\0", "\u1234"]),
         "int": (StrictInt, [0, 5, -1, 2 ** 63, -2 ** 64, 10 ** 30]), "float": (StrictFloat, [0.0, -1.5, 5e-324, float("inf")]), "complex": (StrictComplex, [0j, 1 - 2j]),
         "str": (StrictStr, ["", "a", "a/b\0"]), "bytes": (StrictBytes, [b"", b"a", b"a/b\0"]),
         "intenum": (Level, [-1, 0, 2 ** 31, 2 ** 70, -2 ** 63]), "strenum": (Word, ["a", "", "a/b"]), "floatenum": (Share, [0.5, 1e300]), "flags": (Flags, [1, 3, 2 ** 65, 2 ** 65 + 1])}
