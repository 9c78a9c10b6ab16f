"""application package which brings a loader module of its own"""


class Thing:
    def __init__(self, items):
        self.items = list(items)


class SubThing(Thing):
    pass


class Other:
    def __init__(self, v):
        self.v = v


class Opt:
    def __init__(self, v):
        self.v = v
