"""V01, G01: growable vectors."""
from ..contract import *
from .types import *

ARR = P + 'arrays/'


class VecCls(ClassSpec):
    def __init__(self, ty):
        self.ty = ty; super().__init__(P + 'vector/%sVector' % ty.name)
    def inv(self, o, ex):
        out = [('0 <= size <= capacity, capacity >= 1', ('V01', 'G01'), And(o.size >= 0, o.size <= o.values.len, o.values.len >= 1)),
               ('write position is the size', ('V01', 'G01'), Eq(o.nextPos, o.size))]
        if self.ty.ref:
            d = o.values.data; s, ln = o.size, o.values.len
            out.append(('slots past the size are released', ('G01',),
                        Forall('Int', lambda k: Implies(And(s <= k, k < ln), Eq(Sel(d, k), NULLE)), lambda k: Sel(d, k))))
        return out


def same_prefix(d1, d0, n):
    return Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < n), Eq(Sel(d1, k), Sel(d0, k))), lambda k: Sel(d1, k))


class VM(MethodSpec):
    tags = ('V01',)
    props = ('V01', 'G01')
    exc_tags = ('V01',)
    def __init__(self, ty, **kw):
        self.ty = ty; self.cspec = VecCls(ty); self.cls = self.cspec.cls
        super().__init__(**kw)


class Init(VM):
    name = '<init>'; inv_pre = False
    def raises(self, c): return {'java/lang/IllegalArgumentException': c.initialCapacity < 1}
    def ensures(self, c):
        return [('empty', ('V01',), Eq(c.this.size, IntC(0)))]


class EnsureSize(VM):
    name = 'ensureSize'; mods = ('values',)
    def ensures(self, c):
        o, p = c.this, c.old.this
        return [('contents kept', ('V01',), same_prefix(o.values.data, p.values.data, p.size)),
                ('room for size', ('V01',), o.values.len >= c.size)]


class Append(VM):
    name = 'append'; mods = ('values', 'size', 'nextPos')
    def requires(self, c): return [('fewer than 2^31-1 elements', c.this.size < 2**31 - 1)]
    def ensures(self, c):
        o, p = c.this, c.old.this
        return [('size grows by one', ('V01',), Eq(o.size, p.size + 1)),
                ('appended value is last', ('V01',), Eq(o.values[p.size], c.value)),
                ('earlier values kept', ('V01',), same_prefix(o.values.data, p.values.data, p.size))]


class ValueAt(VM):
    name = 'valueAt'
    def raises(self, c): return {'java/lang/IndexOutOfBoundsException': Or(c.index < 0, c.index >= c.this.values.len)}
    def ensures(self, c): return [('value at index', ('V01',), Eq(c.res, c.this.values[c.index]))]


class Size(VM):
    name = 'size'
    def ensures(self, c): return [('size', ('V01',), Eq(c.res, c.this.size))]


class IsEmpty(VM):
    name = 'isEmpty'
    def ensures(self, c): return [('isEmpty', ('V01',), Eq(Eq(c.res, IntC(1)), Eq(c.this.size, IntC(0))))]


class Clear(VM):
    name = 'clear'; mods = ('values', 'size', 'nextPos')
    def ensures(self, c): return [('empty', ('V01',), Eq(c.this.size, IntC(0)))]


class ForEach(VM):
    name = 'forEach'
    def world(self, ex, st, fr):
        st.g['n'] = IntC(0); st.g['seq'] = Fresh('seq', ArrS('Int', ex.elem_sort(self.ty.k)))
    def callback(self, ex, st, fr, fn, name, args):
        st.g['seq'] = Sto(st.g['seq'], st.g['n'], ex.term(args[0])); st.g['n'] = st.g['n'] + 1
        return [(st, 'ret', None)]
    def ensures(self, c):
        q, d = c.g['seq'], c.this.values.data
        return [('every value once, in order', ('V01',), And(Eq(c.g['n'], c.this.size), same_prefix(q, d, c.this.size)))]


def specs(types):
    from .arrays import contracts
    out = []
    for ty in types:
        u = contracts(ty)
        for k in (Init, EnsureSize, Append, ValueAt, Size, IsEmpty, Clear, ForEach):
            out.append(k(ty, uses=u))
    return out
