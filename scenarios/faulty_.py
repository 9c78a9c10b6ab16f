"""objects that fail when they are stored or restored"""


class Boom(Exception):
    pass


class WontPickle:
    exc = Boom

    def __reduce__(self):
        raise self.exc("injected")


class WontPickleBase(WontPickle):
    exc = KeyboardInterrupt


class WontPickleMem(WontPickle):
    exc = MemoryError


def rebuild(exc):
    if exc is not None:
        raise exc("injected")


class WontUnpickle:
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        return rebuild, (self.exc,)
