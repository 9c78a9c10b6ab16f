"""Contracts of the astropy classes hickle handles (symbolic side).

Quantity, Angle, Time, SkyCoord and Constant objects carry what they were
built from; conversions and normalisations astropy performs are not modelled,
scenarios restrict values to the range in which there are none.
"""
import numpy as np
from . import sym, models, same
from .models import SymObj, OBJECT_CTORS
from .sym import SymArray, SymFloat, is_sym, concrete, has_sym


def as_f8(v):
    if type(v) is SymArray:
        return v if v.dtype == np.float64 else models.model_array(v, np.dtype("f8"))
    if is_sym(v) or not isinstance(v, np.ndarray):
        return models.np_scalar(np.float64, v)
    return np.asarray(v, "f8")


def unit_of(u):
    from astropy import units
    if is_sym(u):
        u = concrete(u, "unit")
    if isinstance(u, bytes):
        raise TypeError("unit given as bytes")
    return units.Unit(u) if u is not None else units.dimensionless_unscaled


def shape_of(v):
    return tuple(getattr(v, "shape", ()))


def make_quantity(cls, value, unit=None, dtype=None, **k):
    from astropy import units
    from astropy.coordinates import Angle
    if dtype is None:
        # integers become binary64, floating point dtypes are kept
        kinds = "f" if issubclass(cls, Angle) else "fc"
        v = value if getattr(value, "dtype", None) is not None and value.dtype.kind in kinds else as_f8(value)
    else:
        dtype = np.dtype(dtype)
        v = models.model_array(value, dtype) if shape_of(value) else models.np_scalar(dtype.type, value)
    dt = dtype if dtype is not None else np.dtype(getattr(v, "dtype", "f8"))
    wrap = {"wrap_angle": Angle(360.0, units.deg)} if hasattr(cls, "wrap_angle") else {"absent": ("wrap_angle",)}
    return SymObj(cls, lambda o: cls(concrete(o.value), o.unit, dtype=o.dtype), value=v, unit=unit_of(unit), shape=shape_of(v), dtype=dt, isscalar=shape_of(v) == (), ndim=len(shape_of(v)),
                  sample=lambda: cls(np.ones(shape_of(v)), unit_of(unit)), **wrap)


class SymTime(SymObj):
    """two times are equal when they were made from the same value; astropy's
    own rounding (which may make them differ) is exercised by the replays"""

    def __eq__(self, other):
        if not isinstance(other, SymTime):
            return False
        if (self.format, self.scale, self.shape) != (other.format, other.scale, other.shape):
            return self.concrete() == other.concrete()
        r = same.same(self.value, other.value, True) if not self.shape else same.array_same(*[v if hasattr(v, "elems") else np.asarray(v) for v in (self.value, other.value)])
        return sym.SymBool(r) if sym.is_z3(r) else bool(r)

    def __ne__(self, other):
        r = self.__eq__(other)
        return sym.SymBool(sym.znot(r.e)) if type(r) is sym.SymBool else np.logical_not(r)

    __hash__ = None


def make_time(cls, val, val2=None, format=None, scale=None, **k):
    if val2 is not None or any(v is not None for v in k.values()):
        return cls(concrete(val), concrete(val2), format=concrete(format), scale=concrete(scale), **{a: concrete(b) for a, b in k.items()})
    if type(val) is SymArray and val.shape == ():
        val = val[()] if hasattr(val, "__getitem__") else val
    s = shape_of(val)
    return SymTime(cls, lambda o: cls(concrete(o.value), format=o.format, scale=o.scale), value=val, format=concrete(format), scale=concrete(scale), shape=s, isscalar=s == (), masked=False, mask=np.zeros(s, bool) if s else np.False_, location=None,
                   precision=3, in_subfmt="*", out_subfmt="*")


class Frame:
    def __init__(self, name):
        self.name = name


def make_skycoord(cls, lon, lat, unit=("deg", "deg"), frame="icrs", **k):
    from astropy.coordinates import UnitSphericalRepresentation, Longitude, Latitude
    lon = make_quantity(Longitude, lon, unit[0])
    lat = make_quantity(Latitude, lat, unit[1])
    from astropy.coordinates import frame_transform_graph
    rep = SymObj(UnitSphericalRepresentation, None, lon=lon, lat=lat, differentials={})
    return SymObj(cls, lambda o: cls(concrete(o.data.lon.value), concrete(o.data.lat.value), unit=(o.data.lon.unit, o.data.lat.unit)),
                  data=rep, frame=Frame(frame), ra=lon, dec=lat, shape=lon.shape, spherical=rep, isscalar=lon.shape == (), **{a: None for a in frame_transform_graph.frame_attributes})


def make_constant(cls, abbrev, name, value, unit, uncertainty, reference=None, system=None):
    return SymObj(cls, lambda o: cls(*[concrete(x) for x in (o.abbrev, o.name, o.value, o._unit_string, o.uncertainty, o.reference, o.system)]),
                  abbrev=abbrev, name=name, value=as_f8(value), unit=unit_of(unit), _unit_string=unit, uncertainty=uncertainty, reference=reference, system=system)


def make_table(cls, data=None, names=None, meta=None, **k):
    t = cls(concrete(data), names=concrete(names), **k)
    if meta is not None:
        t.meta.clear()
        for a, b in models.pairs_of(meta):
            models.setitem(t.meta, a, b)
    return t


def install():
    from astropy.coordinates import Angle, SkyCoord
    from astropy.constants import Constant
    from astropy.table import Table
    from astropy.time import Time
    from astropy.units import Quantity
    models.EXTRA_SYM.add(SymTime)
    OBJECT_CTORS.update({Quantity: make_quantity, Angle: make_quantity, Time: make_time, SkyCoord: make_skycoord, Constant: make_constant, Table: make_table})
