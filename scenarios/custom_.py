"""a class with its own loader, as an application would define it"""
import sys


class Holder:
    def __init__(self, items):
        self.items = list(items)


class FreshHolder(Holder):
    """items are produced anew whenever they are asked for"""


def copy_of(x):
    c = x.__class__
    if c is list:
        return x[:]
    if c is dict:
        return dict(x)
    if c is set:
        return set(x)
    if c is tuple:
        return tuple([y for y in x])
    return x.copy()


def create_holder(py_obj, h_group, name, **kwargs):
    node = h_group.create_group(name)

    def items():
        for i, x in enumerate(py_obj.items):
            yield "i%d" % i, copy_of(x) if isinstance(py_obj, FreshHolder) else x, {"pos": i}, kwargs
    return node, items()


def container():
    PyContainer = sys.modules["hickle.helpers"].PyContainer

    class HolderContainer(PyContainer):
        def append(self, name, item, h5_attrs):
            self._content.append((int(h5_attrs["pos"]), item))

        def convert(self):
            return self.object_type([x for _, x in sorted(self._content, key=lambda p: p[0])])
    return HolderContainer


def register(ctx, cls=Holder, option=None, hkl=b"holder", memoise=True):
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    lm.register_class(cls, hkl, create_holder, None, container(), memoise, option)
    return lm
