import sxapp
from hickle.helpers import PyContainer

DUMPED = []


def create_thing(py_obj, h_group, name, **kwargs):
    DUMPED.append("thing")
    return h_group.create_group(name), (("i%d" % i, x, {"pos": i}, kwargs) for i, x in enumerate(py_obj.items))


class ThingContainer(PyContainer):
    def append(self, name, item, h5_attrs):
        self._content.append((int(h5_attrs["pos"]), item))

    def convert(self):
        return self.object_type([x for _, x in sorted(self._content, key=lambda p: p[0])])


def create_opt(py_obj, h_group, name, **kwargs):
    DUMPED.append("opt")
    return h_group.create_group(name), (("v", py_obj.v, {}, kwargs),)


class OptContainer(PyContainer):
    def append(self, name, item, h5_attrs):
        self._content.append(item)

    def convert(self):
        return self.object_type(self._content[0])


class_register = [
    [sxapp.Thing, b"sxthing", create_thing, None, ThingContainer],
    [sxapp.Opt, b"sxopt", create_opt, None, OptContainer, True, "custom"],
]
exclude_register = []
