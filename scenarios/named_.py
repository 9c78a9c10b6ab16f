"""classes which share the name of a builtin class"""
import builtins


class int(builtins.int):
    pass


class float(builtins.float):
    pass


class complex(builtins.complex):
    pass


class str(builtins.str):
    pass


class bytes(builtins.bytes):
    pass


class tuple(builtins.tuple):
    pass


class NoneType:
    def __eq__(self, o):
        return o.__class__ is NoneType

    def __hash__(self):
        return 5

    def __repr__(self):
        return "None"
