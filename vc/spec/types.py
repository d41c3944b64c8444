"""The element types the templates are instantiated with."""
from ..term import *
from ..dom import *

P = 'com/bytefacets/collections/'


class Ty:
    def __init__(self, name, d):
        self.name = name; self.d = d
        self.ref = d.startswith('L')
        self.k = d if not self.ref else 'E'
        self.arr = '[' + d
    def default(self, ex):
        return ex.dom.default(self.k)
    def eqv(self, ex, a, b):
        """value equality as the helper code uses it: identical, or equal under =="""
        return Eq(a, b)
    def __repr__(self): return self.name


TYPES = {n: Ty(n, d) for n, d in [('Bool', 'Z'), ('Byte', 'B'), ('Short', 'S'), ('Char', 'C'), ('Int', 'I'), ('Long', 'J'),
                                  ('Float', 'F'), ('Double', 'D'), ('String', 'Ljava/lang/String;'), ('Generic', 'Ljava/lang/Object;')]}
ALL = list(TYPES.values())
REPR = [TYPES[n] for n in ('Int', 'String')]


def cdesc(ty):
    """functional interface descriptor prefix"""
    return ty.name
