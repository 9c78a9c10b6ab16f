"""In-memory h5py for symbolic execution.

Implements the part of the h5py API hickle uses on plain Python objects so that
symbolic link names, attributes and data pass through unchanged.  HDF5 itself
(C library) is the environment of the code under test and not encoded; every
explored path is additionally replayed on the real h5py (see harness), which
validates this model on a concrete member of each path.
"""
import sys
import types
import math
import collections.abc
import numpy as np
from . import sym
from .sym import (SymStr, SymBytes, SymArray, SymInt, is_sym, has_sym, zor, branch, raw_of, cast_raw)
from . import models
from .models import model_array, key_eq, SDict


# ---------------------------------------------------------------- state
class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}        # path -> Storage or bytes
        self.objs = []         # (fileobj, Storage)
        self.serial = 0
        self.open_files = []
        self.made_dirs = set()
        self.fault = None      # callable(kind) invoked before each top level operation
        self.depth = 0
        self.writes = 0


W = World()


class op:
    """marks a top level API call (nested calls do not count)"""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        if W.depth == 0 and W.fault is not None:
            W.fault(self.kind)
        W.depth += 1

    def __exit__(self, *a):
        W.depth -= 1


class Storage:
    def __init__(self, filename):
        self.filename = filename
        self.root = GNode(self, None, "/", False)
        self.handles = []      # open File objects
        self.version = 0       # bumped by every mutation


class Node:
    def __init__(self, storage, parent, name):
        W.serial += 1
        self.serial = W.serial
        self.storage, self.parent, self.name = storage, parent, name
        self.attrs = []        # [name, value]
        self.deleted = False

    def path(self):
        if self.parent is None:
            return "/"
        p = self.parent.path()
        return (p if p == "/" else p + "/") + self.name


class GNode(Node):
    def __init__(self, storage, parent, name, track_order):
        super().__init__(storage, parent, name)
        self.links = []        # [name, node] in creation order
        self.track_order = track_order

    def find(self, name):
        for l in self.links:
            if l[0] is name or key_eq(l[0], name):
                return l[1]
        return None

    def ordered(self):
        if self.track_order or len(self.links) < 2:
            return list(self.links)
        return models.m_sorted(self.links, key=lambda l: l[0])


class DNode(Node):
    dtype = None
    shape = None
    data = None
    filters = None


# ---------------------------------------------------------------- ids, references
class ObjectID:
    def __init__(self, node, handle):
        self.node, self.handle = node, handle

    @property
    def valid(self):
        return self.handle._open and not self.node.deleted

    def __bool__(self):
        return bool(self.valid)

    def __eq__(self, o):
        return isinstance(o, ObjectID) and o.node is self.node

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.node.serial)

    @property
    def id(self):
        return self.node.serial if self.valid else 0


class FileID(ObjectID):
    pass


class GroupID(ObjectID):
    pass


class DatasetID(ObjectID):
    pass


class Reference:
    def __init__(self, node=None):
        self.node = node

    def __bool__(self):
        return self.node is not None

    def __eq__(self, o):
        return isinstance(o, Reference) and o.node is self.node

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return "<HDF5 object reference>"


class RegionReference(Reference):
    pass


ref_dtype = np.dtype("O", metadata={"ref": Reference})
regionref_dtype = np.dtype("O", metadata={"ref": RegionReference})


def string_dtype(encoding="utf-8", length=None):
    if length is not None:
        return np.dtype("|S%d" % length)
    return np.dtype("O", metadata={"vlen": str if encoding in ("utf-8", "utf8") else bytes})


def check_string_dtype(dt):
    vlen = (dt.metadata or {}).get("vlen")
    if vlen in (str, bytes):
        return ("utf-8" if vlen is str else "ascii", None)
    if dt.kind == "S":
        return ("ascii", dt.itemsize)
    return None


def check_ref_dtype(dt):
    return (dt.metadata or {}).get("ref")


def check_dtype(**kw):
    (name, dt), = kw.items()
    return (dt.metadata or {}).get(name)


def special_dtype(**kw):
    (name, v), = kw.items()
    return np.dtype("O", metadata={name: v})


class Empty:
    shape = None
    size = None

    def __init__(self, dtype):
        self.dtype = np.dtype(dtype)

    def __eq__(self, o):
        return isinstance(o, Empty) and o.dtype == self.dtype

    def __hash__(self):
        return hash(self.dtype)

    def __repr__(self):
        return "Empty(dtype=%r)" % (self.dtype,)


def native_or_raise(dtype):
    if dtype.metadata and ("vlen" in dtype.metadata or "ref" in dtype.metadata):
        return
    if dtype.names is not None:
        for n in dtype.names:
            native_or_raise(dtype.fields[n][0])
        return
    if dtype.subdtype is not None:
        native_or_raise(dtype.subdtype[0])
        return
    if dtype.kind == "O":
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if dtype.kind in "UMm":
        raise TypeError("No conversion path for dtype: %r" % (dtype,))
    if dtype.itemsize == 0:
        raise ValueError("Size must be positive (size must be positive)")


def item_type(data):
    if isinstance(data, (list, tuple)):
        ts = {item_type(x) for x in data}
        return ts.pop() if len(ts) == 1 else None
    if isinstance(data, np.ndarray):
        if data.dtype.kind == "O" and data.size and not data.dtype.metadata:
            ts = {x.__class__ for x in data.ravel().tolist()}
            return ts.pop() if len(ts) == 1 else None
        return None
    return data.__class__


def guess_dtype(data):
    t = item_type(data)
    if t is Reference:
        return ref_dtype
    if t is bytes:
        return string_dtype("ascii")
    if t is str:
        return string_dtype()
    return None


def no_nul(x):
    if isinstance(x, str):
        if is_sym(x):
            x.encode("utf8")
            nul = "\0" in x
        else:
            x.encode("utf8", "surrogateescape")
            nul = "\0" in x
    else:
        nul = b"\0" in x
    if nul:
        raise ValueError("VLEN strings do not support embedded NULLs")


def to_array(data, dtype):
    """h5py._hl.base.array_for_new_object"""
    if dtype is not None and not isinstance(dtype, np.dtype):
        dtype = np.dtype(dtype)
    f16 = dtype is not None and dtype.kind == "f" and dtype.itemsize == 2
    if f16 or (dtype is not None and not isinstance(data, np.ndarray)):
        as_dtype = dtype
    else:
        as_dtype = guess_dtype(data)
    if as_dtype is not None and as_dtype.kind == "O":
        # vlen strings and references: keep the python objects
        if isinstance(data, np.ndarray) and not is_sym(data):
            out = np.empty(data.shape, as_dtype)
            out[...] = data
            items = data.ravel().tolist()
        elif isinstance(data, (list, tuple)):
            out = np.empty((len(data),), as_dtype)
            for i, x in enumerate(data):
                out[i] = x
            items = list(data)
        else:
            out = np.empty((), as_dtype)
            out[()] = data
            items = [data]
        if (as_dtype.metadata or {}).get("vlen") in (str, bytes):
            for x in items:
                no_nul(x)
        return out
    if has_sym(data):
        a = model_array(data, dtype=as_dtype)
        return a
    return np.asarray(data, order="C", dtype=as_dtype)


# ---------------------------------------------------------------- names
def clean(name):
    """components of a link name as HDF5 sees them"""
    if isinstance(name, bytes):
        name = name.decode("utf8", "surrogateescape") if not is_sym(name) else name.decode("utf8")
    if not is_sym(name):
        name.encode("utf8", "surrogateescape") if False else name.encode("utf8")
        i = name.find("\0")
        if i >= 0:
            name = name[:i]
        absolute = name.startswith("/")
        return absolute, [c for c in name.split("/") if c and c != "."]
    name.encode("utf8")            # unencodable code points are refused
    i = name.find("\0")
    if i >= 0:
        name = name[:i]
    absolute = bool(name.startswith("/"))
    comps = []
    for c in (name.split("/") if "/" in name else [name]):
        if is_sym(c):
            if len_is_zero(c) or bool(c == "."):
                continue
        elif not c or c == ".":
            continue
        comps.append(c)
    return absolute, comps


def len_is_zero(c):
    return not bool(c)


# ---------------------------------------------------------------- attributes
class AttributeManager(collections.abc.MutableMapping):
    def __init__(self, parent):
        self._parent = parent
        self._id = parent.id

    def _node(self):
        self._parent._check()
        return self._parent._node

    def _find(self, name):
        for e in self._node().attrs:
            if e[0] is name or key_eq(e[0], name):
                return e
        return None

    def __getitem__(self, name):
        with op("attr_get"):
            e = self._find(name)
            if e is None:
                raise KeyError("Unable to synchronously open attribute (can't locate attribute: %r)" % (name if not is_sym(name) else "?",))
            return attr_value(e[1])

    def get(self, name, default=None):
        try:
            return self[name]
        except KeyError:
            return default

    def __setitem__(self, name, value):
        self.create(name, value)

    def create(self, name, data, shape=None, dtype=None):
        with op("attr_set"):
            node = self._node()
            self._parent._writable()
            stored = attr_store(data, dtype, shape)
            node.storage.version += 1
            e = self._find(name)
            if e is not None:
                # delete and recreate
                node.attrs.remove(e)
            node.attrs.append([name, stored])

    def modify(self, name, value):
        self.create(name, value)

    def __delitem__(self, name):
        with op("attr_del"):
            self._parent._writable()
            e = self._find(name)
            if e is None:
                raise KeyError("Unable to delete attribute")
            self._node().attrs.remove(e)
            self._node().storage.version += 1

    def __iter__(self):
        with op("attr_iter"):
            names = [e[0] for e in self._node().attrs]
            return iter(models.m_sorted(names) if len(names) > 1 else names)

    def __len__(self):
        return len(self._node().attrs)

    def __contains__(self, name):
        with op("attr_has"):
            return self._find(name) is not None

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def update(self, other=(), **kw):
        for k, v in models.pairs_of(other):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __repr__(self):
        return "<fake attributes>"


def attr_store(data, dtype, shape):
    if isinstance(data, Empty):
        return ("empty", data)
    if isinstance(data, Reference):
        return ("ref", data)
    if dtype is None and is_sym(data) and isinstance(data, (str, bytes)) and not isinstance(data, np.generic):
        no_nul(data)
        return ("str", data if isinstance(data, str) else data.decode("utf8"))
    a = to_array(data, dtype)
    native_or_raise(a.dtype)
    if shape is not None and not is_sym(a):
        a = a.reshape(shape)
    return ("array", a)


def attr_value(stored):
    kind, v = stored
    if kind in ("empty", "ref", "str"):
        return v
    if is_sym(v):
        v = v.copy()
        return v[()] if v.shape == () else v
    if v.dtype.kind == "O":
        if v.shape == ():
            x = v[()]
            return x.decode("utf8", "surrogateescape") if isinstance(x, bytes) else x
        out = np.empty(v.shape, object)
        flat = [x.decode("utf8", "surrogateescape") if isinstance(x, bytes) else x for x in v.ravel().tolist()]
        out.ravel()[:] = flat
        return out
    return v[()] if v.shape == () else v.copy()


# ---------------------------------------------------------------- objects
class HLObject:
    _node = None
    _handle = None

    def _check(self):
        if not self._handle._open or self._node.deleted:
            raise ValueError("Invalid location identifier (invalid location identifier)")

    def _writable(self):
        self._check()
        if self._handle._mode == "r":
            raise ValueError("Unable to synchronously write (no write intent on file)")

    @property
    def id(self):
        return self._id_cls(self._node, self._handle)

    @property
    def file(self):
        self._check()
        return self._handle._as_file()

    @property
    def name(self):
        self._check()
        return self._node.path()

    @property
    def parent(self):
        self._check()
        p = self._node.parent
        return self._handle_obj(p if p is not None else self._node)

    def _handle_obj(self, node):
        return make(node, self._handle)

    @property
    def attrs(self):
        return AttributeManager(self)

    @property
    def ref(self):
        self._check()
        return Reference(self._node)

    def __bool__(self):
        return bool(self._handle._open and not self._node.deleted)

    def __eq__(self, o):
        return isinstance(o, HLObject) and o._node is self._node

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._node.serial)

    def __getnewargs__(self):
        raise TypeError("h5py objects cannot be pickled")

    def __reduce__(self):
        raise TypeError("h5py objects cannot be pickled")


def make(node, handle):
    return Group(_node=node, _handle=handle) if isinstance(node, GNode) else Dataset(_node=node, _handle=handle)


class _View:
    def __init__(self, group, fn):
        self._g, self._fn = group, fn

    def __len__(self):
        return len(self._g)

    def __iter__(self):
        return iter([self._fn(k) for k in self._g])

    def __contains__(self, x):
        return any(key_eq(x, y) for y in self)

    def __repr__(self):
        return "<fake view>"


class Group(HLObject):
    _id_cls = GroupID

    def __init__(self, bind=None, *, _node=None, _handle=None):
        if _node is None:
            if not isinstance(bind, ObjectID):
                raise ValueError("%s is not a GroupID" % bind)
            _node, _handle = bind.node, bind.handle
        self._node, self._handle = _node, _handle

    def _walk(self, name, create_last=False):
        """-> (parent GNode, last component or None, node or None)"""
        absolute, comps = clean(name)
        node = self._node.storage.root if absolute else self._node
        if not comps:
            return node.parent, None, node
        for i, c in enumerate(comps):
            if not isinstance(node, GNode):
                return None, None, None
            nxt = node.find(c)
            if i == len(comps) - 1:
                return node, c, nxt
            if nxt is None:
                if not create_last:
                    return None, None, None
                nxt = GNode(node.storage, node, c, False)
                node.links.append([c, nxt])
            node = nxt

    def __getitem__(self, name):
        with op("get"):
            self._check()
            if isinstance(name, Reference):
                if name.node is None or name.node.deleted or name.node.storage is not self._node.storage:
                    raise ValueError("Unable to dereference object (invalid reference)")
                return make(name.node, self._handle)
            if not isinstance(name, (str, bytes)):
                raise TypeError("Accessing a group is done with bytes or str, not %s" % type(name))
            _, _, node = self._walk(name)
            if node is None:
                raise KeyError("Unable to synchronously open object (object %s doesn't exist)" % ("?" if is_sym(name) else repr(name)))
            return make(node, self._handle)

    def get(self, name, default=None, getclass=False, getlink=False):
        try:
            o = self[name]
        except KeyError:
            return default
        return type(o) if getclass else o

    def __contains__(self, name):
        with op("has"):
            self._check()
            if isinstance(name, Reference):
                return name.node is not None and not name.node.deleted
            return self._walk(name)[2] is not None

    def __iter__(self):
        with op("iter"):
            self._check()
            names = [l[0] for l in self._node.ordered()]
        return iter(names)

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        self._check()
        return len(self._node.links)

    def __bool__(self):
        return HLObject.__bool__(self)

    def keys(self):
        return _View(self, lambda k: k)

    def _child(self, k):
        n = self._node.find(k)
        return make(n, self._handle)

    def values(self):
        return _View(self, self._child)

    def items(self):
        return _View(self, lambda k: (k, self._child(k)))

    def visititems(self, fn):
        def rec(node, prefix):
            for k, n in node.ordered():
                r = fn(prefix + k, make(n, self._handle))
                if r is not None:
                    return r
                if isinstance(n, GNode):
                    r = rec(n, prefix + k + "/")
                    if r is not None:
                        return r
        return rec(self._node, "")

    def visit(self, fn):
        return self.visititems(lambda k, n: fn(k))

    def create_group(self, name, track_order=None, **kw):
        with op("create_group"):
            self._writable()
            if name is None:
                n = GNode(self._node.storage, None, None, bool(track_order))
                return make(n, self._handle)
            parent, last, node = self._walk(name, True)
            if node is not None:
                raise ValueError("Unable to synchronously create group (name already exists)")
            if parent is None or last is None:
                raise ValueError("Unable to synchronously create group (component not a group)")
            n = GNode(self._node.storage, parent, last, bool(track_order))
            parent.links.append([last, n])
            n.storage.version += 1
            return make(n, self._handle)

    def require_group(self, name):
        if name not in self:
            return self.create_group(name)
        g = self[name]
        if not isinstance(g, Group):
            raise TypeError("Incompatible object (Dataset) already exists")
        return g

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kwds):
        with op("create_dataset"):
            return self._create_dataset(name, shape, dtype, data, **kwds)

    def _create_dataset(self, name, shape, dtype, data, chunks=None, compression=None, shuffle=None, fletcher32=None,
                        maxshape=None, compression_opts=None, fillvalue=None, scaleoffset=None, track_times=False,
                        external=None, track_order=None, dcpl=None, dapl=None, efile_prefix=None, virtual_prefix=None,
                        allow_unknown_filter=False, rdcc_nslots=None, rdcc_nbytes=None, rdcc_w0=None, fill_time=None):
        self._writable()
        if data is not None and not isinstance(data, Empty):
            data = to_array(data, dtype)
        if shape is None:
            if data is None:
                if dtype is None:
                    raise TypeError("One of data, shape or dtype must be specified")
                data = Empty(dtype)
            shape = data.shape
        else:
            shape = (shape,) if isinstance(shape, int) and not isinstance(shape, tuple) else tuple(shape)
            if data is not None:
                if isinstance(data, Empty) or not same_product(shape, data):
                    raise ValueError("Shape tuple is incompatible with data")
        if isinstance(maxshape, int):
            maxshape = (maxshape,)
        if isinstance(chunks, int) and not isinstance(chunks, bool):
            chunks = (chunks,)
        tmp = maxshape if maxshape is not None else shape
        if isinstance(chunks, tuple) and any(c > d for d, c in zip(tmp or (), chunks) if d is not None):
            raise ValueError("Chunk shape must not be greater than data shape in any dimension.")
        if dtype is None:
            dtype = data.dtype if data is not None else np.dtype("=f4")
        else:
            dtype = np.dtype(dtype)
        native_or_raise(dtype)
        if any((compression, shuffle, fletcher32, maxshape, scaleoffset)) and chunks is False:
            raise ValueError("Chunked format required for given storage options")
        if compression is True:
            if compression_opts is None:
                compression_opts = 4
            compression = "gzip"
        if isinstance(compression, int) and not isinstance(compression, bool) and 0 <= compression <= 9:
            if compression_opts is not None:
                raise TypeError("Conflict in compression options")
            compression_opts = compression
            compression = "gzip"
        if shape is None or shape == ():
            if any((chunks, compression, compression_opts, shuffle, fletcher32, scaleoffset is not None)):
                raise TypeError("%s datasets don't support chunk/filter options" % ("Empty" if shape is None else "Scalar"))
            if maxshape and maxshape != ():
                raise TypeError("Scalar datasets cannot be extended")
        for v, nm in ((chunks, "chunks"), (maxshape, "maxshape")):
            if v in (None, True) or v is False or shape in (None, ()):
                continue
            if len(tuple(v)) != len(shape):
                raise ValueError("%r must have same rank as dataset shape" % nm)
        if compression is not None:
            if compression not in ("gzip", "lzf", "szip"):
                raise ValueError('Compression filter "%s" is unavailable' % compression)
            if compression == "gzip" and compression_opts is not None and compression_opts not in range(10):
                raise ValueError("GZIP setting must be an integer from 0-9")
            if compression == "lzf" and compression_opts is not None:
                raise ValueError("LZF compression filter accepts no options")
        elif compression_opts is not None:
            raise TypeError("Compression method must be specified")
        if scaleoffset is not None:
            if scaleoffset < 0:
                raise ValueError("scale factor must be >= 0")
            if dtype.kind not in "fui":
                raise TypeError("scale/offset filter only supported for integer and floating-point types")
            if dtype.kind == "f" and scaleoffset is True:
                raise ValueError("integer scaleoffset must be provided for floating point types")
            if fletcher32:
                raise ValueError("fletcher32 cannot be used with potentially lossy scale/offset filter")
        if track_times not in (True, False, None):
            raise TypeError("track_times must be either True or False")
        parent = last = None
        if name is not None:
            parent, last, node = self._walk(name, True)
            if node is not None:
                raise ValueError("Unable to synchronously create dataset (name already exists)")
            if parent is None or last is None:
                raise ValueError("Unable to synchronously create dataset (component not a group)")
        d = DNode(self._node.storage, parent, last)
        d.dtype, d.shape = dtype, shape
        chunked = chunks or any((shuffle, fletcher32, compression, maxshape, scaleoffset is not None))
        d.filters = dict(compression=compression, compression_opts=4 if compression == "gzip" and compression_opts is None else compression_opts,
                         shuffle=bool(shuffle), fletcher32=bool(fletcher32),
                         scaleoffset=scaleoffset, chunks=(chunks if isinstance(chunks, tuple) else True) if chunked else None,
                         maxshape=maxshape)
        if isinstance(data, Empty):
            d.shape = None
            d.data = None
        elif data is None:
            if dtype.kind == "O":
                d.data = np.empty(shape, dtype)
            else:
                d.data = zero_array(dtype, shape, fillvalue)
        else:
            d.data = store(data, dtype, shape)
            d.shape = tuple(d.data.shape)
        if parent is not None:
            parent.links.append([last, d])
        d.storage.version += 1
        return make(d, self._handle)

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        if name not in self:
            return self.create_dataset(name, shape=shape, dtype=dtype, **kw)
        return self[name]

    def __setitem__(self, name, obj):
        with op("setitem"):
            self._writable()
            if isinstance(obj, HLObject):
                parent, last, node = self._walk(name, True)
                if node is not None:
                    raise OSError("Unable to create link (name already exists)")
                parent.links.append([last, obj._node])
                self._node.storage.version += 1
                return
            self._create_dataset(name, None, None, obj)

    def __delitem__(self, name):
        with op("del"):
            self._writable()
            parent, last, node = self._walk(name)
            if node is None:
                raise KeyError("Couldn't delete link")
            for i, l in enumerate(parent.links):
                if l[1] is node:
                    del parent.links[i]
                    break
            self._node.storage.version += 1

            def drop(n):
                n.deleted = True
                if isinstance(n, GNode):
                    for l in n.links:
                        drop(l[1])
            drop(node)

    def move(self, source, dest):
        self[dest] = self[source]
        parent, last, node = self._walk(source)
        parent.links.remove([last, node])
        np_, nl, _ = self._walk(dest)
        node.parent, node.name = np_, nl

    def copy(self, source, dest, name=None, **kw):
        src = source._node if isinstance(source, HLObject) else self[source]._node
        if isinstance(dest, Group):
            target, nm = dest, name or src.name
        else:
            target, nm = self, dest
        target._writable()
        parent, last, node = target._walk(nm, True)
        if node is not None:
            raise RuntimeError("destination object already exists")
        mapping = {}

        def dup(n, par, nme):
            if isinstance(n, GNode):
                m = GNode(target._node.storage, par, nme, n.track_order)
            else:
                m = DNode(target._node.storage, par, nme)
                m.dtype, m.shape, m.data, m.filters = n.dtype, n.shape, n.data, n.filters
            m.attrs = [list(a) for a in n.attrs]
            mapping[id(n)] = m
            if isinstance(n, GNode):
                m.links = [[k, dup(c, m, k)] for k, c in n.links]
            return m
        parent.links.append([last, dup(src, parent, last)])
        target._node.storage.version += 1

    def __repr__(self):
        return "<fake HDF5 group>"


def same_product(shape, data):
    n = 1
    size = data.raw_size() if hasattr(data, "raw_size") else data.size
    for x in shape:
        n = n * x
    if is_sym(n) or is_sym(size):
        return bool(n == size)
    return n == size


def zero_array(dtype, shape, fillvalue):
    n = math.prod(shape)
    if dtype.kind in "biufc" and dtype.names is None and dtype.subdtype is None and n <= 4096:
        z = np.zeros((), dtype)[()] if fillvalue is None else dtype.type(fillvalue)
        return SymArray(dtype, tuple(shape), [raw_of(z, dtype) for _ in range(n)])
    if fillvalue is not None:
        return np.full(shape, fillvalue, dtype)
    return np.zeros(shape, dtype)


def store(data, dtype, shape):
    if is_sym(data):
        a = data
        if a.dtype != dtype:
            a = a.astype(dtype)
        else:
            a = a.copy()
        if a.shape != tuple(shape) or a.cls is not np.ndarray:
            a = SymArray(a.dtype, tuple(shape), a.elems, a.blob)
        return a
    if data.dtype.kind == "O" or dtype.kind == "O":
        return data.reshape(shape).copy() if data.shape != tuple(shape) else data.copy()
    return np.array(data.astype(dtype) if data.dtype != dtype else data, copy=True).reshape(shape).view(np.ndarray)


class Dataset(HLObject):
    _id_cls = DatasetID

    def __init__(self, bind=None, *, _node=None, _handle=None):
        if _node is None:
            _node, _handle = bind.node, bind.handle
        self._node, self._handle = _node, _handle

    @property
    def shape(self):
        self._check()
        return self._node.shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        self._check()
        return self._node.dtype

    @property
    def size(self):
        self._check()
        if self._node.shape is None:
            return None
        n = 1
        for x in self._node.shape:
            n = n * x
        return n

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def maxshape(self):
        return self._node.shape

    def __getattr__(self, name):
        if name in ("compression", "compression_opts", "shuffle", "fletcher32", "scaleoffset", "chunks"):
            return self._node.filters[name]
        raise AttributeError(name)

    def __len__(self):
        s = self.shape
        if not s:
            raise TypeError("Attempt to take len() of scalar dataset")
        return s[0]

    def len(self):
        return len(self)

    def __bool__(self):
        return HLObject.__bool__(self)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __getitem__(self, key):
        with op("read"):
            self._check()
            n = self._node
            if n.shape is None:
                if key == Ellipsis or key == ():
                    return Empty(n.dtype)
                raise ValueError("Empty datasets cannot be sliced")
            d = n.data
            if is_sym(d):
                if isinstance(key, tuple) and key == ():
                    return d.copy()[()] if d.shape == () else d.copy()
                if key is Ellipsis:
                    return d.copy()
                r = d.copy()[key]
                return r
            if d.dtype.kind == "O":
                if d.shape == ():
                    x = d[()]
                    if isinstance(x, Reference):
                        return x
                    if x is None:
                        return b""
                    if isinstance(x, str):
                        x = x.encode("utf8")
                    return x
                out = np.empty(d.shape, d.dtype)
                flat = [x.encode("utf8") if isinstance(x, str) else (b"" if x is None else x) for x in d.ravel().tolist()]
                for i, x in enumerate(flat):
                    out.ravel()[i] = x
                return out if (key is Ellipsis or (isinstance(key, tuple) and key == ())) else out[key]
            if key is Ellipsis:
                return d.copy()
            r = d[key]
            return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        with op("write"):
            self._writable()
            n = self._node
            if n.shape is None:
                raise ValueError("Empty datasets cannot be written")
            n.storage.version += 1
            if n.dtype.kind == "O":
                if isinstance(value, (str, bytes)):
                    no_nul(value)
                n.data[key] = value
                return
            if not is_sym(n.data) and has_sym(value):
                n.data = models.to_symarray(n.data)
            if is_sym(n.data):
                n.data[key if key is not Ellipsis else slice(None)] = value
            else:
                n.data[key] = value

    def asstr(self, encoding="utf8", errors="strict"):
        return _AsStr(self, encoding)

    def astype(self, dtype):
        return _AsType(self, np.dtype(dtype))

    def read_direct(self, dest):
        dest[...] = self[()]

    def __array__(self, dtype=None, copy=True):
        r = self[...]
        r = sym.concrete(r, "Dataset.__array__")
        return np.asarray(r, dtype=dtype)

    def __repr__(self):
        return "<fake HDF5 dataset>"


class _AsStr:
    def __init__(self, d, enc):
        self.d, self.enc = d, enc

    def __getitem__(self, key):
        r = self.d[key]
        if isinstance(r, bytes):
            return r.decode(self.enc)
        out = np.empty(r.shape, object)
        out.ravel()[:] = [x.decode(self.enc) for x in r.ravel().tolist()]
        return out


class _AsType:
    def __init__(self, d, dt):
        self.d, self.dt = d, dt

    def __getitem__(self, key):
        return self.d[key].astype(self.dt)


class _Handle:
    """open state shared by the File object and all objects opened through it"""

    def __init__(self, storage, mode, filename, key):
        self._open = True
        self._mode = mode
        self.storage = storage
        self.filename = filename
        self.key = key
        self.closes = 0

    def _as_file(self):
        f = File.__new__(File)
        f._node, f._handle = self.storage.root, self
        return f

    def close(self):
        if self._open:
            self._open = False
            self.closes += 1
            if self in self.storage.handles:
                self.storage.handles.remove(self)
            if self in W.open_files:
                W.open_files.remove(self)


class File(Group):
    _id_cls = FileID

    def __init__(self, name, mode="r", driver=None, libver=None, userblock_size=None, fileobj=None, backing_store=True, **kw):
        with op("open"):
            self._open_file(name, mode, driver, fileobj, backing_store)

    def _open_file(self, name, mode, driver, fileobj, backing_store):
        if isinstance(name, ObjectID):
            self._node, self._handle = name.handle.storage.root, name.handle
            return
        if mode not in ("r", "r+", "w", "w-", "x", "a"):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if driver is None and hasattr(name, "read") and hasattr(name, "seek"):
            driver, fileobj = "fileobj", name
        if driver == "fileobj":
            fo = fileobj if fileobj is not None else name
            # the driver really uses the object
            fo.seek(0, 2)
            store_ = None
            for o, s in W.objs:
                if o is fo:
                    store_ = s
            if store_ is None:
                # the driver creates a file in an empty object and never truncates one, whatever the mode
                if fo.tell() > 0 or mode == "r":
                    raise OSError("Unable to synchronously open file (file signature not found)")
                store_ = Storage(repr(name))
                W.objs.append((fo, store_))
                fo.seek(0)
                fo.write(b"\x89HDF\r\n\x1a\n")
            self._finish(store_, "r" if mode == "r" else "r+", name if isinstance(name, str) else repr(name), None)
            return
        if driver == "core" and not backing_store:
            st = Storage(str(name))
            self._finish(st, "r+", str(name), None)
            return
        import os
        fn = os.fspath(name)
        if isinstance(fn, bytes):
            fn = fn.decode()
        if fn in W.dirs():
            raise OSError(21, "Unable to synchronously open file (is a directory)")
        cur = W.files.get(fn)
        exists = fn in W.files
        if mode in ("r", "r+"):
            if not exists:
                raise FileNotFoundError(2, "Unable to synchronously open file (unable to open file: name = %r)" % fn)
        elif mode in ("w-", "x"):
            if exists:
                raise FileExistsError(17, "Unable to synchronously create file (file exists)")
        if mode != "w" and exists and not isinstance(cur, Storage):
            raise OSError("Unable to synchronously open file (file signature not found)")
        if exists and isinstance(cur, Storage) and cur.handles:
            if mode == "w":
                raise OSError("Unable to synchronously create file (unable to truncate a file which is already open)")
            if mode in ("r+", "a") and all(h._mode == "r" for h in cur.handles):
                if mode == "r+":
                    raise OSError("Unable to synchronously open file (file is already open for read-only)")
                raise OSError("Unable to synchronously open file (file is already open for read-only)")
        parent = os.path.dirname(fn)
        if mode == "w" or not exists:
            if parent and parent not in W.dirs():
                raise FileNotFoundError(2, "Unable to synchronously create file")
            cur = Storage(fn)
            W.files[fn] = cur
        self._finish(cur, "r" if mode == "r" else "r+", fn, fn)

    def _finish(self, storage, mode, filename, key):
        h = _Handle(storage, mode, filename, key)
        storage.handles.append(h)
        W.open_files.append(h)
        self._node, self._handle = storage.root, h

    @property
    def mode(self):
        self._check()
        return self._handle._mode

    @property
    def filename(self):
        self._check()
        return self._handle.filename

    @property
    def driver(self):
        return "sec2"

    def flush(self):
        with op("flush"):
            self._check()

    def close(self):
        with op("close"):
            self._handle.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._handle._open:
            self.close()

    def __repr__(self):
        return "<fake HDF5 file>" if self._handle._open else "<Closed HDF5 file>"


World.root_dirs = ("/vfs",)


def _dirs(self):
    return set(self.root_dirs) | self.made_dirs


World.dirs = _dirs


def is_hdf5(fn):
    import os
    return isinstance(W.files.get(os.fspath(fn)), Storage)


def install():
    """put the model in place of h5py in this process"""
    m = types.ModuleType("h5py")
    m.__path__ = []
    import importlib.machinery
    m.__spec__ = importlib.machinery.ModuleSpec("h5py", None)

    def sub(name, **kw):
        s = types.ModuleType("h5py." + name)
        s.__dict__.update(kw)
        sys.modules["h5py." + name] = s
        target = m
        parts = name.split(".")
        for p in parts[:-1]:
            target = getattr(target, p)
        setattr(target, parts[-1], s)
        return s
    m.__dict__.update(File=File, Group=Group, Dataset=Dataset, AttributeManager=AttributeManager, Reference=Reference,
                      RegionReference=RegionReference, ref_dtype=ref_dtype, regionref_dtype=regionref_dtype, Empty=Empty,
                      string_dtype=string_dtype, check_string_dtype=check_string_dtype, check_ref_dtype=check_ref_dtype,
                      check_dtype=check_dtype, special_dtype=special_dtype, HLObject=HLObject, is_hdf5=is_hdf5,
                      __version__="3.16.0")
    sub("version", version_tuple=(3, 16, 0, None, None, None), version="3.16.0", hdf5_version="1.14.6")
    sub("h5r", Reference=Reference, RegionReference=RegionReference)
    sub("h5f", FileID=FileID)
    sub("h5g", GroupID=GroupID)
    sub("h5d", DatasetID=DatasetID)
    sub("h5i")
    sub("h5o")
    sub("h5p")
    sub("h5s")
    sub("h5t", string_dtype=string_dtype, check_string_dtype=check_string_dtype, check_ref_dtype=check_ref_dtype)
    hl = sub("_hl")
    hl.__path__ = []
    sub("_hl.files", File=File)
    sub("_hl.group", Group=Group)
    sub("_hl.dataset", Dataset=Dataset)
    sub("_hl.attrs", AttributeManager=AttributeManager)
    sub("_hl.base", HLObject=HLObject, Empty=Empty)
    sys.modules["h5py"] = m
    return m
