"""A01: array helpers."""
from ..contract import *
from .types import *

TAGS = ('A01',)


def tv(c, n):
    """element term of a scalar argument"""
    return c.ex.term(c.argv(n))


def prefix_rest(d1, d0, n, rest):
    """d1[k] = d0[k] below n, rest from n on (k >= 0)"""
    return Forall('Int', lambda k: Implies(k >= 0, Eq(Sel(d1, k), Ite(k < n, Sel(d0, k), rest))), lambda k: Sel(d1, k))


def bounded(d1, n, f):
    """forall 0 <= k < n: d1[k] = f(k)"""
    return Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < n), Eq(Sel(d1, k), f(k))), lambda k: Sel(d1, k))


class AM(MethodSpec):
    tags = TAGS; exc_tags = TAGS; props = ('A01',)
    fresh_arrays = False
    def __init__(self, ty, desc, **kw):
        self.ty = ty; self.cls = P + 'arrays/%sArray' % ty.name
        self.desc = desc
        super().__init__(**kw)
    def key(self): return '%s.%s%s' % (self.cls.split('/')[-1], self.name, self.desc[:self.desc.index(')') + 1])


def initial(c, v, ety):
    """what create(size, v) stores: v, or the type's default when v equals it (0.0 == -0.0)"""
    return v


class Create(AM):
    name = 'create'; pnames = ('size',)
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.size < 0}
    def result(self, ex, st, fr):
        return ex.alloc_arr(st, self.ty.k, fr.args['size'].t, ConstArr(ex.arr_sort(self.ty.k), self.ty.default(ex)), self.ty.arr)
    def ensures(self, c):
        d = c.res.data
        return [('requested length', TAGS, Eq(c.res.len, c.size)),
                ('every element is the default', TAGS, bounded(d, c.size, lambda k: self.ty.default(c.ex)))]


class CreateOf(AM):
    """create(Class, size)"""
    name = 'create'; pnames = ('type', 'size')
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.size < 0}
    def ensures(self, c):
        d = c.res.data
        return [('requested length', TAGS, Eq(c.res.len, c.size)),
                ('every element is the default', TAGS, bounded(d, c.size, lambda k: self.ty.default(c.ex)))]
    def args_make(self, ex, st, n, d): return Junk('java/lang/Class') if 'Class' in d else super().args_make(ex, st, n, d)


class CreateFill(AM):
    name = 'create'; pnames = ('size', 'defaultValue')
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.size < 0}
    def ensures(self, c):
        d = c.res.data; v = tv(c, 'defaultValue'); ex = c.ex
        df = self.ty.default(ex)
        def same_as(k):
            if self.ty.k in 'FD':     # equal under ==: 0.0 stands for -0.0
                return Or(Eq(Sel(d, k), v), And(App('feq_' + self.ty.k, 'Bool', v, df), Eq(Sel(d, k), df)))
            if self.ty.ref and self.ty.name == 'Generic':
                return Eq(Sel(d, k), v)
            return Eq(Sel(d, k), v)
        return [('requested length', TAGS, Eq(c.res.len, c.size)),
                ('every element is the initial value', TAGS,
                 Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < c.size), same_as(k)), lambda k: Sel(d, k)))]


class Resize(AM):
    name = 'resize'; pnames = ('array', 'newSize')
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.newSize < 0}
    def ensures(self, c):
        a = c.old.array
        return [('requested length', TAGS, Eq(c.res.len, c.newSize)),
                ('prefix kept, rest default', TAGS, bounded(c.res.data, c.newSize, lambda k: Ite(k < a.len, a[k], self.ty.default(c.ex))))]


class Fill(AM):
    name = 'fill'; pnames = ('array', 'value', 'fromOffset', 'length'); mods = ('arg:array',)
    pure_fail = False
    def raises(self, c):
        return {'java/lang/IndexOutOfBoundsException': And(c.length > 0, Or(c.fromOffset < 0, c.fromOffset + c.length > c.array.len))}
    def ensures(self, c):
        d, d0 = c.array.data, c.old.array.data
        lo, n, v = c.fromOffset, c.length, tv(c, 'value')
        return [('exactly the range is filled', TAGS,
                 Forall('Int', lambda k: Eq(Sel(d, k), Ite(And(lo <= k, k < lo + n), v, Sel(d0, k))), lambda k: Sel(d, k)))]


class FillAll(AM):
    name = 'fill'; pnames = ('array', 'value'); mods = ('arg:array',)
    def ensures(self, c):
        d, v = c.array.data, tv(c, 'value')
        return [('every element is filled', TAGS, bounded(d, c.array.len, lambda k: v))]


class CopyOfFill(AM):
    name = 'copyOf'; pnames = ('source', 'newLength', 'defaultValue')
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.newLength < 0}
    def ensures(self, c):
        a, v = c.old.source, tv(c, 'defaultValue')
        return [('requested length', TAGS, Eq(c.res.len, c.newLength)),
                ('prefix kept, rest is the initial value', TAGS, bounded(c.res.data, c.newLength, lambda k: Ite(k < a.len, a[k], v)))]


class CopyOf(AM):
    name = 'copyOf'; pnames = ('source', 'newLength')
    def raises(self, c): return {'java/lang/NegativeArraySizeException': c.newLength < 0}
    def ensures(self, c):
        a = c.old.source
        return [('requested length', TAGS, Eq(c.res.len, c.newLength)),
                ('prefix kept, rest is the default', TAGS, bounded(c.res.data, c.newLength, lambda k: Ite(k < a.len, a[k], self.ty.default(c.ex))))]


def grown(need, n):
    """n >= 1 doubled until it reaches need; need itself when doubling would overflow"""
    return App('grown', 'Int', need, n)


def grown_def(need, n): return Eq(grown(need, n), Ite(n >= need, n, Ite(n >= 2**30, need, grown(need, n + n))))


class Ensure(AM):
    """ensureSize / ensureEntry, with or without an initial value"""
    entry = False; init = False
    def need(self, c): return c.entry + 1 if self.entry else c.size
    def requires(self, c):
        return [('entry below 2^31-1', c.entry < 2**31 - 1)] if self.entry else []
    def result(self, ex, st, fr):
        c = C(fr, st); cond = self.need(c) <= c.array.len
        if ex.valid(st, cond): return [(st, fr.args['array'])]
        s2 = st.fork(); s2.assume(cond)
        st.assume(Not(cond))
        out = [(s2, fr.args['array'])] if ex.feasible(s2) else []
        return out + [(st, make_arr(ex, st, 'grown', self.ty.arr))]
    def ensures(self, c):
        a, n = c.old.array, self.need(c)
        same = isinstance(c.resv, Loc) and c.resv.n == c.argv('array').n
        v = tv(c, 'initialValue') if self.init else self.ty.default(c.ex)
        out = [('the same array is returned exactly when it suffices', TAGS, Eq(BoolC(same), n <= a.len))]
        if not same:
            L = a.len
            out += [('large enough', TAGS, And(c.res.len >= n, c.res.len >= L)),
                    ('a doubling suffices when it fits', TAGS, Implies(And(L >= 1, n <= L + L, L <= 2**30 - 1), Eq(c.res.len, L + L))),
                    ('the length results from doubling', TAGS, Eq(c.res.len, grown(n, Ite(Eq(L, IntC(0)), IntC(1), L)))),
                    ('prefix kept, rest is the initial value', TAGS, bounded(c.res.data, c.res.len, lambda k: Ite(k < L, a[k], v)))]
        return out
    @property
    def loops(self):
        def inv(c, L):
            n, cur, need = L.newLength, c.old.array.len, self.need(c)
            return [('doublings', TAGS, Eq(grown(need, n), grown(need, Ite(Eq(cur, IntC(0)), IntC(1), cur)))),
                    ('growing', TAGS, And(n >= 1, n >= cur, Or(Eq(n, cur), Eq(n, IntC(1)), Eq(n, cur + cur), And(cur + cur < need, n >= cur), cur < 1)))]
        return [LoopSpec('grow', 'grow', vars={'newLength': 'I'}, assigns=('newLength',), inv=inv,
                         assume=lambda c, L: [grown_def(self.need(c), L.newLength)], variant=lambda c, L: self.need(c) - L.newLength)]


def contracts(ty):
    """all contracts of the helper class of one type"""
    a, d = ty.arr, ty.d
    if ty.name == 'Generic': a, d = '[Ljava/lang/Object;', 'Ljava/lang/Object;'
    out = [Create(ty, '(I)' + a), CreateFill(ty, '(I%s)%s' % (d, a)), Resize(ty, '(%sI)%s' % (a, a)),
           Fill(ty, '(%s%sII)V' % (a, d)), FillAll(ty, '(%s%s)V' % (a, d)), CopyOfFill(ty, '(%sI%s)%s' % (a, d, a)), CopyOf(ty, '(%sI)%s' % (a, a))]
    if ty.name == 'Generic':
        out.append(CreateOf(ty, '(Ljava/lang/Class;I)' + a))
    for nm in ('ensureSize', 'ensureEntry'):
        for init in (False, True):
            ps = ('array', 'entry' if nm == 'ensureEntry' else 'size') + (('initialValue',) if init else ())
            out.append(Ensure(ty, '(%sI%s)%s' % (a, d if init else '', a), name=nm, init=init, entry=nm == 'ensureEntry', pnames=ps))
    for s in out: s.uses = tuple(out)
    return tuple(out)


def specs(types):
    out = []
    for ty in types: out += contracts(ty)
    return out
