"""classes used by the scenarios (importable by name: hickle stores them by pickle)"""


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyList2(MyList):
    pass


class MyDict2(MyDict):
    pass


class MyStr2(MyStr):
    pass


class Plain:
    def __init__(self, v=None):
        self.v = v

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.v == other.v

    __hash__ = None
