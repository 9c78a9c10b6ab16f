"""Writers for the layouts of hickle 4.0.x and 3.x files.

Written from the files in /repo/hickle/tests/legacy_hkls and the published
writers of these versions, independent of the code in /repo.
"""
import pickle
import numpy as np
from collections import OrderedDict

# hickle 4.0 used a lambda as type of object arrays: no current python restores it
LAMBDA = b"\x80\x03ctypes\nCodeType\nK\x01\x85R."


def cls_of(x):
    return x.__class__


def is_str(x):
    return issubclass(cls_of(x), str)


class V4:
    """writes one object in the layout of hickle 4.0.x"""

    def __init__(self, ctx, f, path="/", version="4.0.1"):
        self.ctx = ctx
        self.g = f if path.strip("/") == "" else f.require_group(path)
        self.g.attrs["HICKLE_VERSION"] = version
        self.g.attrs["HICKLE_PYTHON_VERSION"] = "3.6.9"

    def dump(self, x, name="data"):
        self.put(self.g, name, x)

    def mark(self, node, cls, base):
        if cls is not None:
            node.attrs["type"] = np.array(cls if isinstance(cls, bytes) else pickle.dumps(cls, 3))
        node.attrs["base_type"] = base
        return node

    def put(self, g, name, x):
        c = cls_of(x)
        if c is str or c is bytes:
            return self.mark(g.create_dataset(name, data=x), c, c.__name__.encode())
        if x is None:
            return self.mark(g.create_dataset(name, data=bytearray(b"None")), c, b"None")
        if issubclass(c, np.generic):
            d = self.mark(g.create_dataset(name, data=x), c, b"np_scalar")
            d.attrs["np_dtype"] = str(x.dtype).encode()
            return d
        if c in (bool, int, float, complex):
            if c is int and self.ctx.truth(x >= 2 ** 63) or c is int and self.ctx.truth(x < -2 ** 63):
                return self.mark(g.create_dataset(name, data=str(x)), c, b"int")
            return self.mark(g.create_dataset(name, data=x), c, c.__name__.encode())
        if issubclass(c, (list, tuple, set)):
            return self.listlike(g, name, x, c)
        if issubclass(c, dict):
            return self.dictlike(g, name, x, c)
        raise TypeError(c)

    def listlike(self, g, name, x, c):
        base = {list: b"list", tuple: b"tuple", set: b"set"}[[b for b in (list, tuple, set) if issubclass(c, b)][0]]
        items = list(x)
        kinds = {cls_of(i) for i in items}
        if not items:
            return self.mark(g.create_dataset(name, data=np.zeros((0,))), c, base)
        if len(kinds) == 1 and kinds & {int, float, complex, bool}:
            k, = kinds
            d = g.create_dataset(name, shape=(len(items),), dtype=np.dtype(k))
            for i, v in enumerate(items):
                d[i] = v
            return self.mark(d, c, base)
        if len(kinds) == 1 and kinds & {str, bytes} and self.flat(items):
            k, = kinds
            d = self.mark(g.create_dataset(name, data=self.ctx.np_array([i.encode("ascii") if k is str else i for i in items])), c, base)
            d.attrs["str_type"] = k.__name__.encode()
            return d
        s = self.mark(g.create_group(name), c, base)
        for i, v in enumerate(items):
            self.put(s, "data_%d" % i if len(items) > 1 else "data0", v)
        return s

    def flat(self, items):
        return all(type(i) in (str, bytes) and (isinstance(i, bytes) or i.isascii()) for i in items)

    def dictlike(self, g, name, x, c):
        s = self.mark(g.create_group(name), c, b"dict")
        for i, (k, v) in enumerate(x.items()):
            r = ("'" + k + "'" if self.ctx.truth("'" not in k) else '"' + k + '"') if is_str(k) else self.ctx.text(k)
            h = s.create_group(r.replace("/", "\\"))
            h.attrs["base_type"] = b"dict_item"
            h.attrs["key_base_type"] = cls_of(k).__name__.encode()
            h.attrs["key_type"] = np.array(pickle.dumps(cls_of(k), 3))
            h.attrs["key_idx"] = i
            self.put(h, "data", v)
        return s

    # -- numpy and scipy --------------------------------------------------
    def array(self, g, name, x):
        d = self.mark(g.create_dataset(name, data=x), np.ndarray, b"ndarray")
        d.attrs["np_dtype"] = str(x.dtype).encode()
        return d

    def textarray(self, g, name, x):
        """unicode array: stored as bytes"""
        d = self.mark(g.create_dataset(name, data=x.astype("S")), np.ndarray, b"ndarray")
        d.attrs["np_dtype"] = x.dtype.str.encode()
        return d

    def objarray(self, g, name, item):
        """object array: item of a zero dimensional one, list of items otherwise"""
        s = self.mark(g.create_group(name), LAMBDA, b"ndarray")
        s.attrs["np_dtype"] = b"object"
        self.put(s, "data", item)
        return s

    def masked(self, g, name, data, mask):
        d = self.mark(g.create_dataset(name, data=data), np.ma.MaskedArray, b"ndarray_masked_data")
        d.attrs["np_dtype"] = str(data.dtype).encode()
        self.mark(g.create_dataset(name + "_mask", data=mask), np.ndarray, b"ndarray_masked_mask")
        return d

    def pickled(self, g, name, x):
        return self.mark(g.create_dataset(name, data=np.array(pickle.dumps(x, 3))), None, b"pickle")

    def sparse(self, g, name, cls, data, indices, indptr, shape):
        base = cls.__name__
        s = self.mark(g.create_group(name), b"\x80\x03chickle.loaders.load_scipy\nreturn_first\nq\x00.", base.encode())
        nothing = b"\x80\x03c__builtin__\nNoneType\nq\x00."
        self.mark(s.create_dataset("data", data=data), cls, base.encode())
        self.mark(s.create_dataset("indices", data=indices), nothing, base.encode() + b"_indices")
        self.mark(s.create_dataset("indptr", data=indptr), nothing, base.encode() + b"_indptr")
        self.mark(s.create_dataset("shape", data=np.array(shape)), nothing, base.encode() + b"_shape")
        return s


class V3:
    """writes one object in the layout of hickle 3.x"""

    def __init__(self, ctx, f, path="/", version="3.4.9"):
        self.ctx = ctx
        f.attrs["CLASS"] = b"hickle"
        f.attrs["VERSION"] = version
        f.attrs["PYTHON_VERSION"] = "3.7.4"
        self.mark(f, "hickle")
        self.g = f
        if path.strip("/") != "":
            self.g = self.mark(f.require_group(path), "hickle")

    def mark(self, node, *types):
        for t, name in zip(types, ("type", "key_type")):
            node.attrs[name] = np.array([t.encode()])
        return node

    def dump(self, x):
        self.put(self.g, x, 0)

    def put(self, g, x, i):
        c = cls_of(x)
        name = "data_%d" % i
        if c in (int, float, bool, complex):
            d = self.mark(g.create_dataset(name, data=x), "python_dtype")
            d.attrs["python_subdtype"] = ("<class '%s'>" % c.__name__).encode()
            return d
        if c is str:
            d = g.create_dataset(name, shape=(1,), dtype=self.ctx.h5.special_dtype(vlen=str))
            d[0] = x
            return self.mark(d, "string")
        if c is bytes:
            return self.mark(g.create_dataset(name, data=self.ctx.np_array([x])), "bytes")
        if x is None:
            return self.mark(g.create_dataset(name, data=[0]), "none")
        if issubclass(c, np.generic):
            d = self.mark(g.create_dataset(name, data=x), "np_scalar")
            d.attrs["np_dtype"] = str(x.dtype).encode()
            return d
        if issubclass(c, np.ma.MaskedArray):
            self.mark(g.create_dataset(name, data=x.data), "ndarray_masked_data")
            return self.mark(g.create_dataset(name + "_mask", data=x.mask), "ndarray_masked_mask")
        if issubclass(c, np.ndarray):
            return self.mark(g.create_dataset(name, data=x), "ndarray")
        if issubclass(c, np.dtype):
            return self.mark(g.create_dataset(name, data=[str(x)]), "np_dtype")
        if issubclass(c, (list, tuple, set)):
            return self.listlike(g, name, x, c)
        if issubclass(c, dict):
            return self.dictlike(g, name, x, c)
        if c.__name__ in ("csr_matrix", "csc_matrix", "bsr_matrix"):
            s = self.mark(g.create_group(name), c.__name__)
            for k, v in (("data", x.data), ("indices", x.indices), ("indptr", x.indptr), ("shape", np.array(x.shape))):
                self.mark(s.create_dataset(k, data=v), "%s_%s" % (c.__name__, k))
            return s
        return self.mark(g.create_dataset(name, data=np.array([pickle.dumps(x, 3)])), "pickle")

    def listlike(self, g, name, x, c):
        items = list(x)
        kinds = {cls_of(i) for i in items}
        if len(kinds) == 1:
            k, = kinds
            if k in (int, float, complex, bool):
                d = g.create_dataset(name, shape=(len(items),), dtype=np.dtype(k))
                for i, v in enumerate(items):
                    d[i] = v
                return self.mark(d, "<class '%s'>" % c.__name__)
            if k in (str, bytes):
                d = self.mark(g.create_dataset(name, data=self.ctx.np_array([i.encode("utf8") if k is str else i for i in items])), "<class '%s'>" % c.__name__)
                d.attrs["py3_string_type"] = np.array([("<class '%s'>" % k.__name__).encode()])
                return d
        s = self.mark(g.create_group(name), "<class '%s'>" % c.__name__)
        for i, v in enumerate(items):
            self.put(s, v, i)
        return s

    def quoted(self, k):
        t = self.ctx.truth
        for i in range(len(k)):
            c = k[i:i + 1]
            if t(c < " ") or t(c == "'") or t(c == "\\") or t(c > "~") and not (t(c >= "\xc0") and t(c <= "\u0220")) and not (t(c >= "\u4e00") and t(c <= "\u9000")):
                return self.ctx.repr(k)
        return "'" + k + "'"

    def dictlike(self, g, name, x, c):
        s = self.mark(g.create_group(name), "<class 'dict'>")
        for k, v in x.items():
            h = s.create_group(self.quoted(k) if is_str(k) else self.ctx.text(k))
            self.mark(h, "dict_item", "<class '%s'>" % cls_of(k).__name__)
            self.put(h, v, 0)
        return s
