"""S01, S02: sort of a primary array with a companion.

Every array state reached in sort is a rearrangement of the state at entry: perm(ex, D) is the ghost permutation belonging to the
contents D of the primary array, D[i] = D0[pi[i]] with inverse qi. It follows the stores of the code: storing an element read
from index j of contents E puts perm(E)[j] at that index; contents that come from a havoc or a call have a permutation of their own.
SortAny leaves the comparator's answers arbitrary (S02); SortOrd knows it as ord(key) (S01)."""
from ..contract import *
from .types import *
from .hash import nonnullf, I0, I1

IAE = 'java/lang/IllegalArgumentException'
AII = ArrS('Int', 'Int')


def reg(ex):
    r = getattr(ex, '_perm', None)
    if r is None: r = ex._perm = {}
    return r


def perm(ex, D):
    """(pi, qi) of the contents D"""
    r = reg(ex)
    if D.id in r: return r[D.id]
    out = None
    if D.op == 'store':
        b, i, v = D.args
        if v.op == 'select' and v.args[0].sort == D.sort:
            p, q = perm(ex, b); x = Sel(perm(ex, v.args[0])[0], v.args[1])
            out = (Sto(p, i, x), Sto(q, x, i))
    if out is None: out = (Fresh('pi', AII), Fresh('qi', AII))
    r[D.id] = out
    return out


def identity(ex, st, D):
    p, q = reg(ex)[D.id] = (Fresh('id', AII), Fresh('idinv', AII))
    for a in (p, q): st.assume(Forall('Int', lambda k: Eq(Sel(a, k), k), lambda k: Sel(a, k)))


def after(ex, st, D0, D1, f, g):
    """D1 is D0 rearranged by f, with inverse g (terms -> terms)"""
    p, q = perm(ex, D0)
    p1, q1 = reg(ex)[D1.id] = (Fresh('pi', AII), Fresh('qi', AII))
    st.assume(Forall('Int', lambda k: Eq(Sel(p1, k), Sel(p, f(k))), lambda k: Sel(p1, k)))
    st.assume(Forall('Int', lambda k: Eq(Sel(q1, k), g(Sel(q, k))), lambda k: Sel(q1, k)))


class SM(MethodSpec):
    fresh_arrays = False; merge = True
    def __init__(self, kt, vt, ordered, **kw):
        self.kt = kt; self.vt = vt; self.ordered = ordered
        self.tags = self.exc_tags = self.props = ('S01',) if ordered else ('S02',)
        self.cls = P + 'sort/%s%sCompanionSort' % (kt.name, vt.name)
        self.variant = ('any order ' if not ordered else '') + self.cls.split('/')[-1]
        super().__init__(**kw)
        if self.optional: self.sig = '(%s%sIII)V' % (kt.arr, vt.arr)
        self.uses = self.calls(kt, vt, ordered)
    def calls(self, kt, vt, o): return ()
    def key(self): return '%s.%s%s' % (self.cls.split('/')[-1], self.name, '' if self.ordered else ' (any comparator)')
    def world(self, ex, st, fr): identity(ex, st, st.heap[fr.args['pri'].n].data)
    def callback(self, ex, st, fr, fn, name, args):
        if name != 'compare': return None
        r = Fresh('cmp', 'Int'); st.assume(ex.dom.inrange(r, 'I'))
        if self.ordered:
            a, b = [ordk(fn.t, ex.term(x)) for x in args]
            st.assume(And(Eq(r < 0, a < b), Eq(r > 0, a > b)))
        return [(st, 'ret', V('I', r, 'I'))]
    def order(self, l): return l if self.ordered else []


def ordk(f, k): return App('ordk_' + k.sort if isinstance(k.sort, str) else 'ordk', 'Real', f, k)


class Lockstep(SM):
    """both arrays are rearranged the same way within a range, region(c) -> (from, to)"""
    mods = ('arg:pri', 'arg:sec')
    def returns(self, ex, st, fr, m):
        D0, D1 = fr.pre.heap[fr.args['pri'].n].data, st.heap[fr.args['pri'].n].data
        fr.rho = (Fresh('rho', AII), Fresh('rhoinv', AII))
        after(ex, st, D0, D1, lambda k: Sel(fr.rho[0], k), lambda k: Sel(fr.rho[1], k))
        return [(st, None)]
    def apply(self, ex, st, m, args):
        caller = ex.ctx.spec
        outs = super().apply(ex, st, m, args)
        if ex.quiet or not isinstance(caller, Sort): return outs
        for s, k, v in outs:       # the rearrangement since entry of the caller, proved after each call
            if k != 'ret': continue
            for lab, tags, t in caller.lockstep(C(ex.ctx.fr, s)):
                ex.oblige(s, 'after %s: %s' % (m.name, lab), t, 'call-post', tags); s.assume(t)
        return outs
    def lockstep(self, c):
        lo, hi = self.region(c)
        p, q = getattr(c.fr, 'rho', None) or perm(c.ex, c.pri.data)
        return same_way(self.tags, c.old.pri.data, c.old.sec.data, c.pri.data, c.sec.data, p, q, lo, hi)


class VecSwap(Lockstep):
    """two disjoint ranges change places"""
    name = 'vecswap'; pnames = ('pri', 'sec', 'a', 'b', 'n')
    optional = True
    def requires(self, c):
        return [('ranges', And(c.a >= 0, c.b >= 0, Or(c.n <= 0, And(c.a + c.n <= c.b, c.b + c.n <= c.pri.len, c.b + c.n <= c.sec.len))))]
    def returns(self, ex, st, fr, m):
        D0, D1 = fr.pre.heap[fr.args['pri'].n].data, st.heap[fr.args['pri'].n].data
        a, b, n = [fr.args[x].t for x in 'abn']
        f = lambda k: swapped(a, b, n, k)
        after(ex, st, D0, D1, f, f)
        return [(st, None)]
    def ensures(self, c):
        o = c.old
        return [('the ranges of the %s array change places' % x, self.tags, rearranged(getattr(c, y).data, getattr(o, y).data, c.a, c.b, c.n)) for x, y in (('primary', 'pri'), ('secondary', 'sec'))]
    @property
    def loops(self): return [vecloop(self)]


def same_way(tg, P0, S0, P1, S1, p, q, lo, hi):
    ins = lambda k: And(lo <= k, k < hi)
    return [('the primary array is rearranged', tg, Forall('Int', lambda k: Eq(Sel(P1, k), Sel(P0, Sel(p, k))), lambda k: Sel(P1, k))),
            ('the secondary array is rearranged the same way', tg, Forall('Int', lambda k: Eq(Sel(S1, k), Sel(S0, Sel(p, k))), lambda k: Sel(S1, k))),
            ('each index comes from one index of the range', tg, Forall('Int', lambda k: And(Eq(Sel(q, Sel(p, k)), k), Ite(ins(k), ins(Sel(p, k)), Eq(Sel(p, k), k))), lambda k: Sel(p, k))),
            ('each index goes to one index of the range', tg, Forall('Int', lambda k: And(Eq(Sel(p, Sel(q, k)), k), Ite(ins(k), ins(Sel(q, k)), Eq(Sel(q, k), k))), lambda k: Sel(q, k)))]


class VecSwapAny(Lockstep):
    """two ranges, which may overlap when the comparator contradicts itself: some rearrangement within them"""
    name = 'vecswap'; pnames = ('pri', 'sec', 'a', 'b', 'n'); optional = True
    def region(self, c): return Ite(c.a <= c.b, c.a, c.b), Ite(c.a <= c.b, c.b, c.a) + c.n
    def requires(self, c):
        return [('ranges', Or(c.n <= 0, And(c.a >= 0, c.b >= 0, *[x + c.n <= y.len for x in (c.a, c.b) for y in (c.pri, c.sec)])))]
    def ensures(self, c): return self.lockstep(c)
    @property
    def loops(self): return [vecany(self)]


def vecany(s):
    tg = s.tags
    def inv(c, L):
        a, b, n, i = L.old('a'), L.old('b'), L.old('n'), L.i
        lo, hi = Ite(a <= b, a, b), Ite(a <= b, b, a) + n
        P0, S0 = [L._entry.heap[c.argv(x).n].data for x in ('pri', 'sec')]
        pos = [('position', tg, And(i >= 0, Or(i <= n, Eq(i, I0)), Eq(L.a, a + i), Eq(L.b, b + i), Or(n <= 0, And(a >= 0, b >= 0, *[x + n <= y.len for x in (a, b) for y in (c.pri, c.sec)]))))]
        if s.name == 'vecswap': return pos + s.lockstep(c)
        return pos + [('within the range', tg, Or(n <= 0, And(c.off <= lo, hi <= c.off + c.len)))] + s.lockstep(c)
    return LoopSpec('swap ranges', 'vecswap', vars={'a': 'I', 'b': 'I', 'n': 'I', 'i': 'I'}, assigns=('a', 'b', 'i'), keeps=('n',), inv=inv, variant=lambda c, L: L.n - L.i)


def swapped(a, b, n, k): return Ite(And(a <= k, k < a + n), k - a + b, Ite(And(b <= k, k < b + n), k - b + a, k))


def rearranged(x, y, a, b, n): return Forall('Int', lambda k: Eq(Sel(x, k), Sel(y, swapped(a, b, n, k))), lambda k: Sel(x, k))


def vecloop(s):
    tg = s.tags
    def inv(c, L):
        a, b, n, i = L.old('a'), L.old('b'), L.old('n'), L.i
        P1, S1 = c.pri.data, c.sec.data
        P0, S0 = [L._entry.heap[c.argv(x).n].data for x in ('pri', 'sec')]
        p1, q1 = perm(c.ex, P1); p0, q0 = perm(c.ex, P0)
        f = lambda k: swapped(a, b, i, k)
        return [('position', tg, And(i >= 0, Or(i <= n, Eq(i, I0)), Eq(L.a, a + i), Eq(L.b, b + i), a >= 0, b >= 0, Or(n <= 0, a + n <= b))),
                ('primary swapped so far', tg, rearranged(P1, P0, a, b, i)), ('secondary swapped so far', tg, rearranged(S1, S0, a, b, i)),
                ('permutation', tg, rearranged(p1, p0, a, b, i)),
                ('inverse', tg, Forall('Int', lambda k: Eq(Sel(q1, k), f(Sel(q0, k))), lambda k: Sel(q1, k)))]
    return LoopSpec('swap ranges', 'vecswap', vars={'a': 'I', 'b': 'I', 'n': 'I', 'i': 'I'}, assigns=('a', 'b', 'i'), keeps=('n',), inv=inv, variant=lambda c, L: L.n - L.i)


class Sort(Lockstep):
    name = 'sort'; pnames = ('pri', 'sec', 'off', 'len', 'cmp')
    recursive = True
    def calls(self, kt, vt, o): return (VecSwap(kt, vt, o) if o else VecSwapAny(kt, vt, o), self)
    def measure(self, c): return c.len if self.ordered else None
    def raises(self, c):
        return {IAE: Or(c.off < 0, c.len < 0, c.off + c.len > c.pri.len, c.off + c.len > c.sec.len)}
    def region(self, c): return c.off, c.off + c.len
    def ensures(self, c):
        return self.lockstep(c) + self.order([('the range is in order', self.tags, self.sorted(c, c.off, c.off + c.len))])
    def o(self, c, k): return ordk(c.argv('cmp').t, Sel(c.pri.data, k))
    def sorted(self, c, lo, hi, but=None):
        D = c.pri.data
        return Forall(['Int', 'Int'], lambda x, y: Implies(And(lo <= x, x < y, y < hi, TRUE if but is None else Ne(y, but)), self.o(c, x) <= self.o(c, y)), lambda x, y: [(Sel(D, x), Sel(D, y))])
    def all(self, c, lo, hi, f): return Forall('Int', lambda k: Implies(And(lo <= k, k < hi), f(self.o(c, k))), lambda k: Sel(c.pri.data, k))
    @property
    def loops(self):
        tg = self.tags; d = self.kt.d
        def outer(c, L):
            return [('position', tg, And(c.off <= L.i, L.i <= c.off + c.len))] + self.lockstep(c) + self.order([('sorted so far', tg, self.sorted(c, c.off, L.i))])
        def inner(c, L):
            return [('position', tg, And(c.off <= L.j, L.j <= L.i, L.i < c.off + c.len))] + self.lockstep(c) + \
                self.order([('sorted apart from the element being inserted', tg, self.sorted(c, c.off, L.i + 1, L.j))])
        def part(c, L, tail=False, first=None):
            lo, hi = c.off, c.off + c.len
            out = [('positions', tg, And(lo <= L.a, L.a <= L.b, L.c <= L.d, L.d < hi, *([L.b <= L.c + 1] if self.ordered else [L.a <= L.c + 1, L.b <= L.c + 2, L.b <= hi])))] + self.lockstep(c)
            if not self.ordered: return out
            v = ordk(c.argv('cmp').t, c.ex.term(L.val('v')))
            out += [('left end equals the pivot', tg, self.all(c, lo, L.a, lambda x: Eq(x, v))), ('then below the pivot', tg, self.all(c, L.a, L.b, lambda x: x < v)),
                    ('right end equals the pivot', tg, self.all(c, L.d + 1, hi, lambda x: Eq(x, v))), ('before it above the pivot', tg, self.all(c, L.c + 1, L.d + 1, lambda x: x > v))]
            t = c.ex.term(L.val('v'))
            if t.op == 'select':
                x = Sel(perm(c.ex, c.pri.data)[1], Sel(perm(c.ex, t.args[0])[0], t.args[1]))
                out.append(('the pivot is in the range', tg, And(lo <= x, x < hi, Eq(self.o(c, x), v))))
            return out
        def bpart(c, L): return part(c, L) + [('moves right', tg, And(L.b >= L.old('b'), L.a >= L.old('a')))]
        def cpart(c, L):
            v = ordk(c.argv('cmp').t, c.ex.term(L.val('v')))
            return part(c, L) + [('moves left', tg, And(L.c <= L.old('c'), L.d <= L.old('d')))] + self.order([('the element at b is above the pivot', tg, Or(L.b > L.c, self.o(c, L.b) > v))])
        pv = {'a': 'I', 'b': 'I', 'c': 'I', 'd': 'I', 'v': d}
        left = lambda c, L: L.c - L.b + 1
        return [LoopSpec('insertion', 'sort', vars={'i': 'I', 'j': 'I'}, assigns=('j',), keeps=('i',), inv=inner, variant=lambda c, L: L.j),
                LoopSpec('insertion sort', 'sort', vars={'i': 'I'}, assigns=('i',), inv=outer, guard=few, variant=lambda c, L: c.off + c.len - L.i),
                LoopSpec('from the right', 'sort', vars=pv, assigns='cd', keeps='abv', inv=cpart, variant=left),
                LoopSpec('from the left', 'sort', vars=pv, assigns='ab', keeps='cdv', inv=bpart, variant=left),
                LoopSpec('partition', 'sort', vars=pv, assigns='abcd', keeps='v', inv=part, variant=left),
                vecloop(self) if self.ordered else vecany(self)]


def few(ex, m, pc, locs):
    """not one of the loops over a partition: nested loop inside, or nothing but i assigned"""
    asg = ex.assigned(m, loops(m)[pc][0])
    return len(asg) <= 2


def build(kt, vt): return [k(kt, vt, o) for k, o in ((Sort, True), (VecSwap, True), (Sort, False), (VecSwapAny, False))]


def specs(types): return [s for kt in types if kt.name != 'Bool' for vt in types for s in build(kt, vt)]


def tier_specs(tier, prop):
    """quick: every key type and every value type at least once; thorough: every pair"""
    T = TYPES
    if tier == 'quick': pairs = [(T[a], T[b]) for a, b in (('Int', 'Long'), ('Long', 'Bool'), ('Byte', 'Float'), ('Short', 'Byte'), ('Char', 'Short'), ('Float', 'Char'), ('Double', 'String'), ('String', 'Double'), ('Generic', 'Generic'), ('Long', 'Int'))]
    else: pairs = [(a, b) for a in ALL if a.name != 'Bool' for b in ALL]
    return [s for a, b in pairs for s in build(a, b) if prop in s.props]
