"""application package without loader module"""


class Bare:
    def __init__(self, v):
        self.v = v


class BareList(list):
    pass
