"""C08: astropy objects keep value, unit, format, scale and frame."""
import numpy as np
from sx.harness import scenario, grid, Skip
from sx.source import sizes
from sx.same import same, array_same
from scenarios.c01_scalars import wrap

try:
    import astropy.units as U
    from astropy.coordinates import Angle, SkyCoord, Latitude, Longitude, Distance
    from astropy.table import Table, QTable
    from astropy.time import Time
except ImportError:
    U = None

WHERE = ["top", "list", "dict", "nested"]
UNITS = ["m", "km / s", "Jy", "", "deg", "erg / (Angstrom s cm2)", "1e-26 W / (m2 Hz)", "m(3/2)", "mag", "kpc", "arcsec", "%", "0.12345678901234567 m", "1e-17 s", "3.3 km / s", "1.0000001 mag"]


def values(a, b):
    """same shape and the same binary64 values"""
    sa, sb = tuple(getattr(a, "shape", ())), tuple(getattr(b, "shape", ()))
    if sa != sb:
        return False
    if sa == ():
        return same(a, b, True)
    return array_same(a if hasattr(a, "elems") else np.asarray(a), b if hasattr(b, "elems") else np.asarray(b))


def near(ctx, a, b):
    """Time keeps two floats: the value handed out may be rounded once more"""
    if ctx.symbolic:
        return values(a, b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind != "f":
        return bool(np.all(a == b))
    return bool(np.all(np.abs(a - b) <= 1e-15 * np.maximum(np.abs(a), np.abs(b))))


def val(ctx, shape):
    return ctx.float("x") if not shape else ctx.array("x", "f8", tuple(shape[0]) if isinstance(shape[0], list) else tuple(shape))


@scenario("C08", quick=grid(cls=["Quantity"], unit=UNITS, shape=[[]], where=["top"]) + grid(cls=["Quantity"], unit=["m", "km / s"], shape=[[], [2], [1, 2], [0]], where=WHERE) +
          grid(cls=["Angle"], unit=["deg", "rad", "hourangle", "arcmin", "0.7071067811865476 rad"], shape=[[], [2], [1, 2]], where=["top"]) + grid(cls=["Angle"], unit=["rad"], shape=[[], [2]], where=WHERE[1:]),
          thorough=grid(cls=["Quantity"], unit=UNITS, shape=[[], [2], [1, 2], [0], [2, 1, 2]], where=WHERE) + grid(cls=["Angle"], unit=["deg", "rad", "hourangle", "arcmin", "arcsec"], shape=[[], [2], [1, 2], [0]], where=WHERE))
def quantity_angle(ctx, cls, unit, shape, where):
    C = U.Quantity if cls == "Quantity" else Angle
    x = ctx.quantity(C, val(ctx, shape), unit)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is C, "class of %s differs" % cls)
    ctx.check(r.unit == x.unit and r.unit.to_string() == x.unit.to_string(), "unit of %s differs" % cls)
    ctx.check(values(r.value, x.value), "value of %s differs" % cls)


@scenario("C08", quick=grid(dtype=["f4", "f2", "i8", "u8", "i2", "c16", ">f8", ">i4"], shape=[[], [2], [0]], where=["top"]) + grid(dtype=["i8", "c16"], shape=[[], [2]], where=["list", "nested"]),
          thorough=grid(dtype=["f4", "f2", "i8", "u8", "i2", "u1", "c16", "c8", ">f8", ">f4", ">i4"], shape=[[], [2], [1, 2], [0]], where=WHERE))
def quantity_dtype(ctx, dtype, shape, where):
    """values of any numeric kind"""
    dt = np.dtype(dtype)
    v = ctx.array("x", dt.newbyteorder("=").str, tuple(shape))
    v = v if shape else v[()]
    x = ctx.quantity(U.Quantity, v, "km / s", dt)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is U.Quantity and r.unit == x.unit, "class or unit of Quantity differs")
    ctx.check(values(r.value, x.value), "value of Quantity differs")


@scenario("C08", quick=grid(dtype=["f4", "f2"], unit=["deg", "rad"], shape=[[], [2], [0]], where=["top"]) + grid(dtype=["f4"], unit=["hourangle"], shape=[[], [1, 2]], where=["list", "nested"]))
def angle_dtype(ctx, dtype, unit, shape, where):
    v = ctx.array("x", dtype, tuple(shape))
    x = ctx.quantity(Angle, v if shape else v[()], unit)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is Angle and r.unit == x.unit, "class or unit of Angle differs")
    ctx.check(values(r.value, x.value), "value of Angle differs")
    ctx.check(r.dtype == x.dtype, "dtype of Angle differs")


@scenario("C08", quick=grid(what=["precision", "subfmt", "subms", "twofloat", "longfmt", "submstext", "submask", "sublong"]) + grid(what=["skyobstime", "skyequinox", "skywrap", "skyf4", "skyloc"]))
def exact_parts(ctx, what):
    """times and coordinates which value, format and scale or two angles do not describe"""
    from astropy.coordinates import EarthLocation
    k = ctx.choice("k", [0, 1, 2])
    n = ctx.choice("where", ["top", "list", "dict"])
    x = {"precision": lambda: Time("2000-01-01T00:00:00.12345678%d" % k, precision=9 - k), "subfmt": lambda: Time("2000-01-01 12:00:0%d" % k, out_subfmt=["date", "date_hm", "*"][k]),
         "subms": lambda: Time("2000-01-01") + (0.0001234567 + k) * U.s, "twofloat": lambda: Time([2451545.0, 2451545.5], [1e-17, k * 1e-12 + 3e-15], format="jd", scale="tdb"),
         "submstext": lambda: Time([["2000-01-01T00:00:00.12345678%d" % k], ["2016-12-31T23:59:60.000000%d" % k]], format="isot"),
         "submask": lambda: Time(np.ma.array(["2000-01-01T00:00:00.12345678%d" % k, "2001-01-01", "2002-01-01T00:00:00.0000001"], mask=[i == k for i in range(3)]), format="isot", scale="tai"),
         "sublong": lambda: Time(np.arange(3000.0), 0.1 + k * 1e-13, format="unix"),
         "longfmt": lambda: Time(2000.0 + k, format="jyear", out_subfmt=["long", "str", "decimal"][k]),
         "skyobstime": lambda: SkyCoord(1.0 * U.deg, 2.0 * U.deg, obstime="J201%d" % k), "skyequinox": lambda: SkyCoord([1.0, 2] * U.deg, [3.0, 4] * U.deg, equinox="J198%d" % k),
         "skywrap": lambda: SkyCoord(Longitude((340 + k) * U.deg, wrap_angle=180 * U.deg), 2 * U.deg), "skyf4": lambda: SkyCoord(np.array([1.1, k], "f4") * U.deg, np.array([2.2, 3], "f4") * U.deg),
         "skyloc": lambda: SkyCoord(1.0 * U.deg, 2.0 * U.deg, location=EarthLocation.from_geodetic(10.0 * k, 5.0))}[what]()
    y, get = wrap(ctx, x, n)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__ and r.shape == x.shape, "class or shape of %s differs" % what)
    if not what.startswith("sky"):
        m = np.asarray(x.mask)
        ctx.check(bool(np.all(np.asarray(r.mask) == m)), "mask of Time differs")
        ctx.check(r.format == x.format and r.scale == x.scale and bool(np.all(np.asarray(r == x) | m)), "time differs")
        ctx.check(bool(np.all((np.asarray(r.value) == np.asarray(x.value)) | m)) and np.asarray(r.value).dtype == np.asarray(x.value).dtype, "value of Time differs")
    else:
        ctx.check(bool(np.all(r.data.lon.value == x.data.lon.value)) and bool(np.all(r.data.lat.value == x.data.lat.value)) and r.data.lon.dtype == x.data.lon.dtype, "coordinates differ")
        ctx.check(r.data.lon.wrap_angle == x.data.lon.wrap_angle, "wrap angle differs")
        for a in ("obstime", "equinox", "location"):
            p, q = getattr(r, a), getattr(x, a)
            ctx.check((p is None) == (q is None) and (p is None or bool(np.all(p == q))), "%s of coordinates differs" % a)


@scenario("C08", quick=grid(what=["location", "datetime", "ymdhms", "mask1", "mask2", "masktext", "mask0", "wrap", "wraparr", "earth", "delta"]))
def special(ctx, what):
    """parts of astropy objects which value, format and scale or unit do not describe"""
    from astropy.coordinates import EarthLocation
    from astropy.time import TimeDelta
    import datetime
    k = ctx.choice("k", [0, 1, 2])
    n = ctx.choice("where", ["top", "list", "dict"])
    L = EarthLocation.from_geodetic(10.0 * k, 5.0)
    x = {"location": lambda: Time("2020-01-0%d" % (k + 1), location=L), "datetime": lambda: Time([datetime.datetime(2020, 1, 1, k, 2, 3, 456789 + i) for i in range(k)] or datetime.datetime(2021, 2, 3)),
         "ymdhms": lambda: Time({"year": 2010 + k, "month": 3, "day": 1}, format="ymdhms"), "mask1": lambda: Time(np.ma.array([51544.0, 51545.5, 51546.0], mask=[i == k for i in range(3)]), format="mjd", scale="tai"),
         "mask2": lambda: Time(np.ma.array([[1e9, 2.0], [3.0, 4.0]], mask=[[k == 0, k == 1], [True, False]]), format="unix"),
         "masktext": lambda: Time(np.ma.array(["2020-01-01", "2021-02-03", "2022-02-02"], mask=[i == k for i in range(3)]), format="isot"),
         "mask0": lambda: Time(np.ma.array([1.0, 2.0], mask=[False, False]), format="jd"), "wrap": lambda: Longitude(-10.0 * k - 1, "deg", wrap_angle=180 * U.deg),
         "wraparr": lambda: Longitude([350.0 + k, 10.0], "deg", wrap_angle=(90 + k) * U.deg), "earth": lambda: L, "delta": lambda: TimeDelta(1.5 + k, format="sec")}[what]()
    y, get = wrap(ctx, x, n)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__ and r.shape == x.shape, "class or shape of %s differs" % what)
    if what in ("wrap", "wraparr"):
        ctx.check(r.wrap_angle == x.wrap_angle and bool(np.all(r.value == x.value)) and r.unit == x.unit, "longitude differs")
    elif what == "earth":
        ctx.check(bool(np.all(r == x)), "location differs")
    else:
        ctx.check(r.format == x.format and r.scale == x.scale, "format or scale of Time differs")
        m = np.asarray(x.mask)
        ctx.check(bool(np.all(np.asarray(r.mask) == m)), "mask of Time differs")
        a, b = np.asarray(r.value), np.asarray(x.value)
        ctx.check(a.dtype == b.dtype and bool(np.all((a == b) | m)), "value of Time differs")
        if what == "location":
            ctx.check(r.location is not None and bool(np.all(r.location == L)), "location of Time differs")


@scenario("C08", quick=grid(what=["unit", "mask", "text", "description", "quantity", "object", "metadict", "metalist", "metatype", "metacol", "metanum", "colmeta"]))
def table_special(ctx, what):
    """columns and meta data which do not fit one dataset"""
    from astropy.table import QTable, Column, MaskedColumn
    k = ctx.choice("k", [0, 1, 2])
    n = ctx.choice("where", ["top", "list", "dict"])
    c = {"unit": lambda: [Column([1, 2, k], unit="m"), Column([1.5, 2, 3])], "mask": lambda: [MaskedColumn([1, 2, 3], mask=[i == k for i in range(3)]), Column([1, 2, 3])],
         "text": lambda: [Column(["a", "\xe9" * k, "c"]), Column([1, 2, 3])], "description": lambda: [Column([1, 2, k], description="des"), Column([1, 2, 3])],
         "object": lambda: [Column([None, k, "x"], dtype=object), Column([1, 2, 3])], "colmeta": lambda: [Column([1, 2, k], meta={"a": k}), Column([1, 2, 3])]}.get(what, lambda: [Column([1, 2, 3]), Column([1, k, 3])])()
    meta = {"metadict": {"a": {"b": k, "c": [1, 2]}}, "metalist": {"a": [1, k, "x"]}, "metatype": {"type": "t%d" % k, "base_type": "b"}, "metacol": {"colnames": [k], "item_index": 7}, "metanum": {k: "a", "b": None}}.get(what, {"z": k})
    t = QTable([[1, 2, k] * U.m, [1, 2, 3]], names=["q", "b"], meta=meta) if what == "quantity" else Table(c, names=["q", "b"], meta=meta)
    y, get = wrap(ctx, t, n)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is t.__class__ and r.colnames == t.colnames and len(r) == len(t), "class, columns or length of Table differ")
    for i in t.colnames:
        a, b = r[i], t[i]
        ctx.check(a.dtype == b.dtype and a.unit == b.unit and a.info.description == b.info.description, "dtype, unit or description of column differs")
        if what == "mask":
            ctx.check(a.__class__ is b.__class__ and bool(np.all(np.ma.getmaskarray(a) == np.ma.getmaskarray(b))), "mask of column differs")
            ctx.check(np.ma.asarray(a).tolist() == np.ma.asarray(b).tolist(), "column of Table differs")
        else:
            ctx.check(np.asarray(a).tolist() == np.asarray(b).tolist(), "column of Table differs")
        if what == "colmeta":
            ctx.check(dict(a.meta) == dict(b.meta), "meta data of column differs")
    ctx.check(dict(r.meta) == dict(t.meta), "meta data of Table differs")


@scenario("C08", quick=grid(cls=["Latitude", "Longitude", "Distance"], where=["top", "list"]))
def subclasses(ctx, cls, where):
    v = ctx.choice("v", [0.0, 10.25, 1e-7, 89.0])
    unit = {"Latitude": "deg", "Longitude": "deg", "Distance": "kpc"}[cls]
    C = {"Latitude": Latitude, "Longitude": Longitude, "Distance": Distance}[cls]
    arr = ctx.choice("arr", [0, 1])
    x = C([v, 1.5] if arr else v, unit)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is C and r.unit == x.unit, "class or unit of %s differs" % cls)
    ctx.check(values(np.asarray(r.value), np.asarray(x.value)), "value of %s differs" % cls)


@scenario("C08", quick=grid(cls=["Quantity", "Angle", "Latitude", "Longitude", "SkyCoord", "SkyCoordLat", "Column"], where=["top", "dict"]))
def masked_values(ctx, cls, where):
    """every mask over the values of masked quantities, angles and coordinates"""
    from astropy.utils.masked import Masked
    shape = ctx.choice("shape", [(), (2,)])
    m = np.array([ctx.choice("m%d" % i, [False, True]) for i in range(2)])
    m = m if shape else m[0]
    v = np.array([10.25, 20.5]) if shape else 10.25
    if cls == "Quantity":
        x = Masked(v * U.m, mask=m)
    elif cls.startswith("SkyCoord"):
        a, b = Masked(v * U.deg, mask=m), v * U.deg
        x = SkyCoord(a, b) if cls == "SkyCoord" else SkyCoord(b, a)
    elif cls == "Column":
        x = QTable({"a": Masked(np.atleast_1d(v) * U.m, mask=np.atleast_1d(m))})
    else:
        x = Masked({"Angle": Angle, "Latitude": Latitude, "Longitude": Longitude}[cls](v, "deg"), mask=m)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__, "class of masked %s differs" % cls)
    for g in {"SkyCoord": [lambda o: o.ra, lambda o: o.dec], "SkyCoordLat": [lambda o: o.ra, lambda o: o.dec], "Column": [lambda o: o["a"]]}.get(cls, [lambda o: o]):
        a, b = g(r), g(x)
        ma, mb = np.asarray(getattr(a, "mask", False)), np.asarray(getattr(b, "mask", False))
        ctx.check(a.unit == b.unit and a.shape == b.shape and bool(np.all(ma == mb)), "unit, shape or mask of masked %s differs" % cls)
        ctx.check(bool(np.all((np.asarray(getattr(a, "unmasked", a).value) == np.asarray(getattr(b, "unmasked", b).value)) | mb)), "values of masked %s differ" % cls)


NUMFMT = ["jd", "mjd", "unix", "cxcsec", "gps", "jyear", "decimalyear", "byear"]


@scenario("C08", quick=grid(fmt=["jd", "mjd", "unix", "jyear"], scale=["utc", "tai", "tdb"], shape=[[], [2]], where=["top"]) + grid(fmt=["mjd"], scale=["tt"], shape=[[], [1, 2]], where=WHERE),
          thorough=grid(fmt=["jd", "mjd", "unix", "jyear", "byear"], scale=["utc", "tai", "tdb", "tt", "ut1"], shape=[[], [2], [1, 2]], where=WHERE))
def time_number(ctx, fmt, scale, shape, where):
    v = val(ctx, shape)
    lo, hi = {"jd": (2440000.0, 2460000.0), "mjd": (40000.0, 60000.0), "unix": (0.0, 2e9), "jyear": (1970.0, 2020.0), "byear": (1970.0, 2020.0)}[fmt]
    for e in ([v] if not shape else [v[i] for i in np.ndindex(*shape)]):
        ctx.assume(e >= lo)
        ctx.assume(e <= hi)
    x = ctx.time(v, fmt, scale)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is Time and r.format == fmt and r.scale == scale, "class, format or scale of Time differs")
    ctx.check(near(ctx, r.value, x.value), "value of Time differs")
    if not ctx.symbolic:
        ctx.check(bool(np.all(r == x)), "time differs")


@scenario("C08", quick=grid(fmt=["isot", "iso", "yday", "fits", "jyear_str"], shape=[0, 1, 2], where=["top", "dict"]), thorough=grid(fmt=["isot", "iso", "yday", "fits", "jyear_str", "byear_str"], shape=[0, 1, 2], where=WHERE))
def time_text(ctx, fmt, shape, where):
    v = ctx.choice("v", ["2000-01-01T00:00:00.000", "1999-12-31T23:59:59.123", "2016-12-31T23:59:60.000"])
    scale = ctx.choice("scale", ["utc", "tai"])
    ctx.assume(scale == "utc" or "60." not in v)
    x = Time(v if shape == 0 else [v, "2010-06-07T08:09:10.500"] if shape == 1 else [[v], ["2010-06-07T08:09:10.500"]], format="isot", scale=scale)
    x = Time(x, format=fmt)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is Time and r.format == fmt and r.scale == scale, "class, format or scale of Time differs")
    ctx.check(r.shape == x.shape and np.all(np.asarray(r.value) == np.asarray(x.value)) and np.asarray(r.value).dtype == np.asarray(x.value).dtype, "value of Time differs")
    ctx.check(bool(np.all(r == x)), "time differs")


@scenario("C08", quick=grid(lonu=["deg", "rad", "hourangle"], latu=["deg", "rad"], shape=[[], [2]], where=["top"]) + grid(lonu=["deg"], latu=["deg"], shape=[[], [1, 2]], where=WHERE),
          thorough=grid(lonu=["deg", "rad", "hourangle", "arcmin"], latu=["deg", "rad", "arcmin"], shape=[[], [2], [1, 2], [2, 2]], where=WHERE))
def skycoord(ctx, lonu, latu, shape, where):
    lon = ctx.float("lon") if not shape else ctx.array("lon", "f8", tuple(shape))
    lat = ctx.float("lat") if not shape else ctx.array("lat", "f8", tuple(shape))
    top = {"deg": 359.0, "rad": 6.0, "hourangle": 23.5, "arcmin": 20000.0}[lonu]
    bot = {"deg": 89.0, "rad": 1.5, "arcmin": 5000.0}[latu]
    for e in ([lon] if not shape else [lon[i] for i in np.ndindex(*shape)]):
        ctx.assume(e >= 0.0)
        ctx.assume(e <= top)
    for e in ([lat] if not shape else [lat[i] for i in np.ndindex(*shape)]):
        ctx.assume(e >= -bot)
        ctx.assume(e <= bot)
    x = ctx.skycoord(lon, lat, (lonu, latu))
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is SkyCoord and r.frame.name == "icrs", "class or frame of SkyCoord differs")
    ctx.check(r.data.lon.unit == x.data.lon.unit and r.data.lat.unit == x.data.lat.unit, "units of SkyCoord differ")
    if ctx.symbolic:
        ctx.check(values(r.data.lon.value, x.data.lon.value), "longitude of SkyCoord differs")
        ctx.check(values(r.data.lat.value, x.data.lat.value), "latitude of SkyCoord differs")
    else:
        ctx.check(near(ctx, r.data.lon.value, x.data.lon.value) and near(ctx, r.data.lat.value, x.data.lat.value), "coordinates of SkyCoord differ")


@scenario("C08", quick=grid(frame=["galactic", "fk5", "fk4", "icrs", "altaz_less"], extra=["none", "distance", "pm"]))
def skycoord_frames(ctx, frame, extra):
    """frames and further coordinates which do not fit two columns"""
    v = ctx.choice("v", [0.5, 120.25])
    arr = ctx.choice("arr", [0, 1])
    a = [v, 3.0] if arr else v
    b = [-v / 2, 4.0] if arr else -v / 2
    kw = {}
    if extra == "distance":
        kw = {"distance": (np.array([1.5, 2.5]) if arr else 1.5) * U.kpc}
    if frame == "galactic":
        if extra == "pm":
            kw = {"pm_l_cosb": np.asarray(a) * 0 * U.mas / U.yr, "pm_b": np.asarray(a) * U.mas / U.yr}
        x = SkyCoord(l=a * U.deg, b=b * U.deg, frame="galactic", **kw)
    else:
        if extra == "pm":
            kw = {"pm_ra_cosdec": np.asarray(a) * 0 * U.mas / U.yr, "pm_dec": np.asarray(a) * U.mas / U.yr}
        f = "fk5" if frame == "altaz_less" else frame
        if frame == "altaz_less":
            kw["equinox"] = "J1980"
        x = SkyCoord(a * U.deg, b * U.deg, frame=f, **kw)
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is SkyCoord and r.frame.name == x.frame.name and r.frame.is_equivalent_frame(x.frame), "frame of SkyCoord differs")
    ctx.check(r.shape == x.shape and bool(np.all(r.separation(x).rad < 1e-12)), "direction of SkyCoord differs")
    if extra == "distance":
        ctx.check(r.distance.unit == x.distance.unit and bool(np.all(r.distance == x.distance)), "distance of SkyCoord differs")
    if extra == "pm":
        n = "pm_b" if frame == "galactic" else "pm_dec"
        ctx.check(bool(np.all(getattr(r, n) == getattr(x, n))), "proper motion of SkyCoord differs")


@scenario("C08", quick=grid(what=["own", "derived", "name", "inch", "scale", "other"]))
def unusual_unit(ctx, what):
    """units whose text astropy does not know, takes for another unit or which it abbreviates"""
    from astropy.units import imperial
    k = ctx.choice("k", [0, 1, 2])
    u = {"own": lambda: U.def_unit("own_unit_%d" % k), "derived": lambda: U.def_unit("our_%d" % k, (2.5 + k) * U.kg), "name": lambda: U.def_unit(["bar", "pc", "h"][k], 3.3 * U.m),
         "inch": lambda: [imperial.inch, imperial.mile, imperial.inch / imperial.mile][k], "scale": lambda: U.Unit([2 ** 0.5, 0.1 + 0.2, 12345678.9][k] * U.s),
         "other": lambda: U.def_unit("\xe9\u0142"[k % 2], 2.0 * U.m)}[what]()
    n = ctx.choice("n", [0, 1])
    x = (np.array([1.5, 2.5]) if n else 1.5) * u
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is x.__class__ and r.shape == x.shape and bool(np.all(r.value == x.value)), "class or value of Quantity differs")
    ctx.check(r.unit.to_string() == x.unit.to_string(), "name of unit differs")
    if what != "own":
        ctx.check(r.unit == x.unit, "unit of Quantity differs")


@scenario("C08", quick=grid(scale=["utc", "tai", "tdb", "tcb", "tcg", "tt", "ut1", "local"], part=[0, 1]))
def time_kinds(ctx, scale, part):
    """every format of astropy in every scale"""
    fmts = [f for f in sorted(Time.FORMATS) if f not in ("astropy_time",)][part::2]
    fmt = ctx.choice("fmt", fmts)
    k = ctx.choice("k", [0, 1])
    try:
        x = Time(Time([2451545.25, 2451545.0, 2455555.123][k:k + 1 + k] if k else 2451545.25, format="jd", scale=scale))
        x.format = fmt
        x.value
    except Exception:
        return ctx.check(True, "astropy does not know this combination")
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is Time and r.format == fmt and r.scale == scale, "format or scale of Time differs")
    ctx.check(r.shape == x.shape and bool(np.all(r.jd1 == x.jd1)) and bool(np.all(r.jd2 == x.jd2)) or bool(np.all(r == x)), "time differs")


@scenario("C08", quick=grid(where=WHERE, system=[None, "si"]) + grid(where=["top"], system=["cgs", "esu", "emu", "gauss"]))
def constant(ctx, where, system):
    def text(name, n):
        return ctx.str(name, n)
    v, unc = ctx.float("v"), ctx.float("unc")
    x = ctx.constant("q0" + text("abbrev", 1), "Some constant " + text("name", 1), v, "m / s", unc, "ref " + text("ref", 2), system)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    for n in ("abbrev", "name", "reference", "system"):
        ctx.check(same(getattr(r, n), getattr(x, n)), "%s of constant differs" % n)
    ctx.check(r.unit == x.unit, "unit of constant differs")
    ctx.check(same(r.value, x.value, True), "value of constant differs")
    ctx.check(same(r.uncertainty, x.uncertainty, True), "uncertainty of constant differs")


@scenario("C08", quick=grid(name=["c", "G", "h", "e", "R_sun", "k_B", "N_A", "alpha", "e.esu", "e.gauss", "e.emu"]))
def known_constants(ctx, name):
    import astropy.constants as K
    x = getattr(K, name) if name[0] != "e" else getattr(K.e, name[2:] or "si")
    two = ctx.choice("two", [0, 1])
    r = ctx.roundtrip([x, "s"])[0] if two else ctx.roundtrip(x)
    for n in ("abbrev", "name", "reference", "system", "unit", "value", "uncertainty"):
        ctx.check(getattr(r, n) == getattr(x, n), "%s of constant differs" % n)
    ctx.check(r.__class__ is x.__class__, "class of constant differs")


@scenario("C08", quick=grid(cols=[["a"], ["b", "a"], ["z", "m", "a"], ["x" * 40, "y_1"]], rows=[0, 1, 3], where=["top", "list"]), thorough=grid(cols=[["a"], ["b", "a"], ["z", "m", "a"], ["x" * 40, "y_1"], ["c%d" % i for i in range(12)]], rows=[0, 1, 3, 20], where=WHERE))
def table(ctx, cols, rows, where):
    seed = ctx.choice("seed", [0, 1])
    data = {}
    for i, c in enumerate(cols):
        dt = ["i4", "f8", "S3", "?", "u1"][(i + seed) % 5]
        data[c] = np.arange(i, i + rows).astype(dt)
    k = ctx.int("k", -2 ** 63, 2 ** 63 - 1)
    f = ctx.float("f")
    s = ctx.choice("s", ["", "text", "\xe9t\xe9", "with / slash", " padded\t\n", "Mixed Case", "a,b;c", "None", "12"])
    meta = {"num": k, "fl": f, "txt": s, "Zz": 1, "a b": 2.5, "_hidden": 3, "zz": 4, "UPPER": "x"}
    t = ctx.table(data, names=cols, meta=meta) if False else ctx.table([data[c] for c in cols], names=cols, meta=meta)
    y, get = wrap(ctx, t, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is Table and r.colnames == cols, "class or column names of Table differ")
    for c in cols:
        a, b = np.asarray(r[c]), np.asarray(t[c])
        ctx.check(a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b)), "column of Table differs")
    ctx.check(set(r.meta) == set(t.meta), "meta data keys of Table differ")
    for n in t.meta:
        ctx.check(same(r.meta[n], t.meta[n], True), "meta data of Table differs")


@scenario("C08", quick=grid(n=[1, 2]))
def table_meta(ctx, n):
    """any text and any number as meta data"""
    v = ctx.str("v", n, surrogates=True)
    k = ctx.int("k")
    t = Table([np.array([1, 2])], names=["a"])
    t.meta = {"s": v, "i": k, "f": 1.5}
    r = ctx.roundtrip([t, "s"])[0]
    ctx.check(r.__class__ is Table and r.colnames == ["a"], "class or column names of Table differ")
    ctx.check(set(r.meta) == {"s", "i", "f"}, "meta data keys of Table differ")
    ctx.check(same(r.meta["s"], v, True), "text in meta data of Table differs")
    ctx.check(same(r.meta["i"], k, True), "number in meta data of Table differs")


@scenario("C08", quick=grid(what=["column", "meta"]))
def table_names(ctx, what):
    name = ctx.choice("name", ["a", "\xe9", "a b/c", "", " ", "a\0b", "\0", ".", "x" * 300, "type", "colnames", "item_index", "np_dtype", "_x", "A"])
    v = ctx.choice("v", [1, "text", 2.5, True, "a\0", "\0"])
    if what == "column":
        t = Table({name: [1, 2], "other": [3, 4]})
    else:
        t = Table({"other": [3, 4]}, meta={name: v, "zz": "q"})
    n = ctx.choice("where", ["top", "list", "dict"])
    y, get = wrap(ctx, t, n)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is Table and r.colnames == t.colnames, "class or column names of Table differ")
    ctx.check(bool(np.all(r["other"] == t["other"])), "column of Table differs")
    ctx.check(set(r.meta) == set(t.meta), "meta data keys of Table differ")
    for m in t.meta:
        ctx.check(same(r.meta[m], t.meta[m], True), "meta data of Table differs")


@scenario("C08", quick=grid(unit=["m", "km / s", "Jy", "deg", "mag", "erg / (s cm2)"]))
def unit_object(ctx, unit):
    x = U.Unit(unit)
    n = ctx.choice("n", [0, 1])
    r = ctx.roundtrip([x, "s"])[0] if n else ctx.roundtrip(x)
    ctx.check(r == x, "unit read back differs")


@scenario("C08", quick=grid(n=[2, 3]))
def several(ctx, n):
    """objects of one class with different units do not mix"""
    us = ["m", "s", "km"]
    x = {"q%d" % i: ctx.quantity(U.Quantity, ctx.float("x%d" % i), us[i]) for i in range(n)}
    x["a"] = ctx.quantity(Angle, ctx.float("y"), "rad")
    r = ctx.roundtrip(x)
    ctx.check(list(r) == list(x), "names differ")
    for k in x:
        ctx.check(r[k].unit == x[k].unit and r[k].__class__ is x[k].__class__, "class or unit differs")
        ctx.check(values(r[k].value, x[k].value), "value differs")


@scenario("C08", quick=grid(n=sizes(5000, [100]), what=["quantity", "angle", "mjd", "isot", "skycoord", "rows", "masked"]) + grid(n=sizes(100, [12]), what=["columns"]))
def larger(ctx, n, what):
    k = ctx.choice("k", [0, n - 1])
    v = np.arange(n) * 0.125
    v[k] = -1.0 / 3
    if what == "columns":
        x = Table({"c%d" % (n - i): [i, 2 * i] for i in range(n)})
    else:
        x = {"quantity": lambda: v * U.km, "angle": lambda: Angle(v, "deg"), "mjd": lambda: Time(50000.0 + v, format="mjd"), "masked": lambda: Time(np.ma.array(50000.0 + v, mask=np.arange(n) == k), format="mjd"),
             "isot": lambda: Time(["20%02d-01-01T00:00:%02d.5" % (i % 100, i % 60) for i in range(n)], format="isot"), "skycoord": lambda: SkyCoord((v % 360) * U.deg, (v % 90) * U.deg),
             "rows": lambda: Table({"b": v, "a": np.arange(n)})}[what]()
    r = ctx.roundtrip(x)
    ctx.check(r.__class__ is x.__class__, "class differs")
    if what in ("rows", "columns"):
        ctx.check(r.colnames == x.colnames and len(r) == len(x), "columns or rows differ")
        ctx.check(all(bool(np.all(r[c] == x[c])) for c in x.colnames), "table differs")
    elif what == "skycoord":
        ctx.check(r.shape == x.shape and bool(np.all(r.ra.value == x.ra.value)) and bool(np.all(r.dec.value == x.dec.value)), "coordinates differ")
    elif what in ("mjd", "isot", "masked"):
        m = np.asarray(x.mask)
        ctx.check(r.shape == x.shape and bool(np.all(np.asarray(r.mask) == m)) and bool(np.all(np.asarray(r == x) | m)), "times differ")
    else:
        ctx.check(r.shape == x.shape and r.unit == x.unit and bool(np.all(r.value == x.value)), "value or unit differs")
