"""Q01, G01: the circular-buffer deque as a sequence."""
from ..contract import *
from .types import *
from .arrays import contracts
from . import nums, arith

Q = ('Q01',)
QG = ('Q01', 'G01')
NSE = 'java/util/NoSuchElementException'
RE = P + 'exception/ResizeException'
LIM = 2**29


def pos(h, n, j):
    """array index of the j-th element from head h in a buffer of length n"""
    return Ite(h + j < n, h + j, h + j - n)


def at(o, j):
    return Sel(o.values.data, pos(o.head, o.values.len, j))


class DqCls(ClassSpec):
    def __init__(self, ty):
        self.ty = ty; super().__init__(P + 'queue/%sDeque' % ty.name)
    def inv(self, o, ex):
        n, h, t, s = o.values.len, o.head, o.tail, o.size
        out = [('positions in range', QG, And(n >= 1, h >= 0, h < n, t >= 0, t < n, s >= 0, s < n)),
               ('tail follows the elements', QG, Eq(t, pos(h, n, s))),
               ('capacity is a power of two', QG, And(nums.pow2(n), n <= 2**30))]
        if self.ty.ref:
            d = o.values.data
            live = lambda k: Or(And(h <= k, k < h + s), And(h + s > n, k < h + s - n))
            out.append(('slots without element are released', ('G01',),
                        Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < n, Not(live(k))), Eq(Sel(d, k), NULLE)), lambda k: Sel(d, k))))
        return out


def shifted(o, p, n, dk):
    """forall 0 <= j < n: at(o, j + dk) = at(p, j)  (stated on the array of o so that it is found from either side)"""
    j = Fresh('j', 'Int')
    return Implies(And(IntC(0) <= j, j < n), Eq(at(o, j + dk), at(p, j)))


class DM(MethodSpec):
    tags = QG; exc_tags = Q; props = QG
    def __init__(self, ty, **kw):
        self.ty = ty; self.cspec = DqCls(ty); self.cls = self.cspec.cls
        self.uses = contracts(ty) + nums.USES
        super().__init__(**kw)


class Init(DM):
    name = '<init>'; inv_pre = False; pnames = ('initialCapacity',)
    def requires(self, c): return [('at most 2^29', c.initialCapacity <= LIM)]
    def raises(self, c): return {'java/lang/IllegalArgumentException': c.initialCapacity < 1}
    def ensures(self, c): return [('empty', Q, Eq(c.this.size, IntC(0)))]
    def requires(self, c): return [('initial capacity at most 2^29', c.initialCapacity <= LIM)]
    def lemmas(self, c): return []


class Add(DM):
    mods = ('values', 'head', 'tail', 'size')
    first = False
    def raises(self, c):
        p = c.this
        return {RE: Eq(p.size + 1, p.values.len) & (p.values.len >= LIM)}
    exc_excuse = (RE,)
    def ensures(self, c):
        o, p = c.this, c.old.this
        v = c.ex.term(c.argv('value'))
        return [('size grows by one', Q, Eq(o.size, p.size + 1)),
                ('new value at the %s' % ('front' if self.first else 'back'), Q, Eq(at(o, IntC(0) if self.first else p.size), v)),
                ('other values keep their order', Q, shifted(o, p, p.size, 1 if self.first else 0))]


class Remove(DM):
    mods = ('values', 'head', 'tail', 'size')
    first = False
    def raises(self, c): return {NSE: Eq(c.this.size, IntC(0))}
    def ensures(self, c):
        o, p = c.this, c.old.this
        gone = Sel(o.values.data, pos(p.head, p.values.len, IntC(0) if self.first else p.size - 1))
        return [('size shrinks by one', Q, Eq(o.size, p.size - 1)),
                ('returns the %s value' % ('first' if self.first else 'last'), Q, Eq(c.res, at(p, IntC(0) if self.first else p.size - 1))),
                ('other values keep their order', Q, shifted2(o, p, o.size, 1 if self.first else 0)),
                ('the freed slot reads as the default', ('G01',), Eq(gone, self.ty.default(c.ex)))]


def shifted2(o, p, n, dk):
    j = Fresh('j', 'Int')
    return Implies(And(IntC(0) <= j, j < n), Eq(at(o, j), at(p, j + dk)))


class Peek(DM):
    first = False
    def raises(self, c): return {NSE: Eq(c.this.size, IntC(0))}
    def ensures(self, c):
        p = c.this
        return [('the %s value' % ('first' if self.first else 'last'), Q, Eq(c.res, at(p, IntC(0) if self.first else p.size - 1)))]


class Size(DM):
    name = 'size'
    def ensures(self, c): return [('size', Q, Eq(c.res, c.this.size))]


class IsEmpty(DM):
    name = 'isEmpty'
    def ensures(self, c): return [('isEmpty', Q, Eq(Eq(c.res, IntC(1)), Eq(c.this.size, IntC(0))))]


class Clear(DM):
    name = 'clear'; mods = ('values', 'head', 'tail', 'size')
    def ensures(self, c): return [('empty', Q, Eq(c.this.size, IntC(0)))]


class ForEach(DM):
    name = 'forEach'
    def world(self, ex, st, fr):
        st.g['n'] = IntC(0); st.g['seq'] = Fresh('seq', ArrS('Int', ex.elem_sort(self.ty.k)))
    def callback(self, ex, st, fr, fn, name, args):
        st.g['seq'] = Sto(st.g['seq'], st.g['n'], ex.term(args[0])); st.g['n'] = st.g['n'] + 1
        return [(st, 'ret', None)]
    @property
    def loops(self):
        def inv(c, L):
            q, o, n = c.g['seq'], c.this, c.g['n']
            d, h, ln = o.values.data, o.head, o.values.len
            return [('position', Q, And(n >= 0, n <= o.size, Eq(L.pos, pos(h, ln, n)))),
                    ('passed so far', Q, Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < n), Eq(Sel(q, k), Sel(d, pos(h, ln, k)))), lambda k: Sel(q, k)))]
        def inv2(c, L):
            q, o, n = c.g['seq'], c.this, c.g['n']
            d, h, ln = o.values.data, o.head, o.values.len
            return [('position', Q, And(n >= 0, n <= o.size)),
                    ('passed so far', Q, Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < n), Eq(Sel(q, k), Sel(d, pos(h, ln, k)))), lambda k: Sel(q, k)))]
        return [LoopSpec('forEach', 'forEach', vars={'pos': 'I'}, assigns=('pos',), inv=inv, variant=lambda c, L: c.this.size - c.g['n']),
                LoopSpec('forEach (by count)', 'forEach', inv=inv2, variant=lambda c, L: c.this.size - c.g['n'])]
    def ensures(self, c):
        q, o, n = c.g['seq'], c.this, c.g['n']
        j = Fresh('j', 'Int')
        return [('every value once', Q, Eq(n, o.size)),
                ('from head to tail', Q, Implies(And(IntC(0) <= j, j < o.size), Eq(Sel(q, j), at(o, j))))]


def specs(types):
    out = [arith.MaskLemma(('Q01',))]
    for ty in types:
        out += [Init(ty), Add(ty, name='addFirst', first=True), Add(ty, name='addLast'), Remove(ty, name='removeFirst', first=True),
                Remove(ty, name='removeLast'), Peek(ty, name='peekFirst', first=True), Peek(ty, name='peekLast'),
                Size(ty), IsEmpty(ty), Clear(ty), ForEach(ty)]
    return out
