"""Q02, Q03, G01: the multi-headed deque.

Ghost state: the sequence of list l is ent[l][lo[l]] .. ent[l][hi[l]-1] (entries); own[e] the list of a live entry (-1 otherwise) and
pos[e] its position there; ps[l] the number of elements in lists below l; fent[0..fn) the freed entries (the last one is handed out next), fpos[e] the index of e there or -1."""
from ..contract import *
from .types import *
from .arrays import contracts
from .hash import defarr, defarr2, AI, I0, I1, M1
from . import nums

QALL = ('Q02', 'Q03', 'G01')
Q2, Q3, G1 = ('Q02',), ('Q03',), ('G01',)
Q23 = ('Q02', 'Q03')
NSE = 'java/util/NoSuchElementException'
BIG = 2**31 - 2


def en(o, l, i): return Sel(Sel(o.ent, l), i)
def cnt(o, l): return Sel(o.hi, l) - Sel(o.lo, l)
def elem(o, l, j): return Sel(o.values.data, en(o, l, Sel(o.lo, l) + j))


class HyCls(ClassSpec):
    ghosts = {'ent': ArrS('Int', AI), 'lo': AI, 'hi': AI, 'own': AI, 'pos': AI, 'fent': AI, 'fn': 'Int', 'fpos': AI, 'ps': AI}
    def __init__(self, ty):
        self.ty = ty; super().__init__(P + 'queue/%sHydraDeque' % ty.name)
    def inv(self, o, ex):
        L = o.heads.len
        lo, hi, own, pos, fent, fn, fpos = o.lo, o.hi, o.own, o.pos, o.fent, o.fn, o.fpos
        hd, tl, ct, nx, pv, d = o.heads.data, o.tails.data, o.count.data, o.nexts.data, o.prevs.data, o.values.data
        me = o.maxEntry
        df = self.ty.default(ex)
        out = [('array lengths', QALL, And(Eq(o.tails.len, L), Eq(o.count.len, L), Eq(o.nexts.len, o.values.len), Eq(o.prevs.len, o.values.len), me >= -1, o.values.len >= 1, o.nexts.len >= 1, o.prevs.len >= 1,
                    o.values.len > me, o.nexts.len > me, o.prevs.len > me)),
               ('lists', QALL, Forall('Int', lambda l: And(Sel(lo, l) <= Sel(hi, l), Implies(Or(l < 0, l >= L), Eq(Sel(lo, l), Sel(hi, l)))), lambda l: [(Sel(lo, l),), (Sel(hi, l),)])),
               ('list ends', QALL, Forall('Int', lambda l: Implies(And(I0 <= l, l < L), And(
                    Eq(Sel(ct, l), Sel(hi, l) - Sel(lo, l)), Eq(Sel(hd, l), Ite(Sel(lo, l) < Sel(hi, l), en(o, l, Sel(lo, l)), M1)),
                    Eq(Sel(tl, l), Ite(Sel(lo, l) < Sel(hi, l), en(o, l, Sel(hi, l) - 1), M1)))), lambda l: [(Sel(hd, l),), (Sel(tl, l),), (Sel(ct, l),)])),
               ('members of the lists', QALL, Forall(['Int', 'Int'], lambda l, i: Implies(And(Sel(lo, l) <= i, i < Sel(hi, l)), And(
                    Eq(Sel(own, en(o, l, i)), l), Eq(Sel(pos, en(o, l, i)), i))), lambda l, i: en(o, l, i))),
               ('live entries', QALL, Forall('Int', lambda e: And(Sel(own, e) >= -1, Implies(Sel(own, e) >= 0, And(I0 <= e, e <= me, Sel(own, e) < L,
                    Sel(lo, Sel(own, e)) <= Sel(pos, e), Sel(pos, e) < Sel(hi, Sel(own, e)), Eq(en(o, Sel(own, e), Sel(pos, e)), e)))), lambda e: Sel(own, e))),
               ('links forward', QALL, Forall('Int', lambda e: Implies(Sel(own, e) >= 0, Eq(Sel(nx, e), Ite(Sel(pos, e) + 1 < Sel(hi, Sel(own, e)), en(o, Sel(own, e), Sel(pos, e) + 1), M1))), lambda e: Sel(nx, e))),
               ('links backward', QALL, Forall('Int', lambda e: Implies(And(I0 <= e, e < o.prevs.len), Eq(Sel(pv, e), Ite(And(Sel(own, e) >= 0, Sel(pos, e) > Sel(lo, Sel(own, e))), en(o, Sel(own, e), Sel(pos, e) - 1), M1))), lambda e: Sel(pv, e))),
               ('free entries', QALL, And(fn >= 0, Eq(o.freeList, Ite(fn > 0, -Sel(fent, fn - 1) - 2, M1)),
                    Forall('Int', lambda k: Implies(And(I0 <= k, k < fn), Eq(Sel(fpos, Sel(fent, k)), k)), lambda k: Sel(fent, k)),
                    Forall('Int', lambda e: And(Sel(fpos, e) >= -1, Implies(Sel(fpos, e) >= 0, And(Sel(fpos, e) < fn, Eq(Sel(fent, Sel(fpos, e)), e), I0 <= e, e <= me, Sel(own, e) < 0))), lambda e: Sel(fpos, e)),
                    Forall('Int', lambda e: Implies(Sel(fpos, e) >= 0, Eq(Sel(nx, e), Ite(Sel(fpos, e) > 0, -Sel(fent, Sel(fpos, e) - 1) - 2, M1))), lambda e: Sel(nx, e)))),
               ('every entry handed out is live or free', QALL, Forall('Int', lambda e: Implies(And(I0 <= e, e <= me), Or(Sel(own, e) >= 0, Sel(fpos, e) >= 0)), lambda e: [(Sel(own, e),), (Sel(fpos, e),)])),
               ('number of elements', QALL, And(Eq(Sel(o.ps, I0), I0), Eq(o.size, Sel(o.ps, L)), L >= 0,
                    Forall('Int', lambda h: Implies(h >= 0, Eq(Sel(o.ps, h + 1), Sel(o.ps, h) + Sel(hi, h) - Sel(lo, h))), lambda h: [(Sel(hi, h),), (Sel(lo, h),)]),
                    Forall('Int', lambda h: Implies(h >= L, Eq(Sel(o.ps, h), Sel(o.ps, L))), lambda h: Sel(o.ps, h)),
                    Forall(['Int', 'Int'], lambda a, b: Implies(And(I0 <= a, a <= b), Sel(o.ps, a) <= Sel(o.ps, b)), lambda a, b: [(Sel(o.ps, a), Sel(o.ps, b))]))),
               ('size', QALL, And(o.size >= 0, Eq(o.size, me + 1 - fn))),
               ('released entries read as the default', G1, Forall('Int', lambda e: Implies(And(I0 <= e, e < o.values.len, Sel(own, e) < 0), Eq(Sel(d, e), df)), lambda e: Sel(d, e)))]
        return out


class HyM(MethodSpec):
    tags = QALL; exc_tags = Q23; props = QALL
    elems = frozenset(['values', 'value']); side = frozenset(['values', 'value', 'values_len'])
    allm = ('values', 'heads', 'tails', 'count', 'nexts', 'prevs', 'freeList', 'size', 'maxEntry', 'ent', 'lo', 'hi', 'own', 'pos', 'fent', 'fn', 'fpos', 'ps')
    def __init__(self, ty, **kw):
        self.ty = ty; self.cspec = HyCls(ty); self.cls = self.cspec.cls
        super().__init__(**kw)
        self.uses = contracts(TYPES['Int']) + (contracts(ty) if ty.name != 'Int' else ()) + nums.USES
    def key(self): return '%s.%s%s' % (self.cls.split('/')[-1], self.name, self.desc[:self.desc.index(')') + 1] if self.desc else '')


def other_lists(o, p, l):
    """sequences of all lists other than l"""
    m, j = Fresh('m', 'Int'), Fresh('j', 'Int')
    return [('other lists keep their length', Q2, Implies(Ne(m, l), Eq(cnt(o, m), cnt(p, m)))),
            ('other lists keep their values', Q2, Implies(And(Ne(m, l), I0 <= j, j < cnt(p, m)), Eq(elem(o, m, j), elem(p, m, j)))),
            ('other lists keep their entries', Q2, Implies(And(Ne(m, l), I0 <= j, j < cnt(p, m)), Eq(en(o, m, Sel(o.lo, m) + j), en(p, m, Sel(p.lo, m) + j))))]


class Init(HyM):
    name = '<init>'; inv_pre = False; pnames = ('initialQueues', 'initialCapacity')
    def raises(self, c):
        return {'java/lang/IllegalArgumentException': c.initialCapacity < 1,
                'java/lang/NegativeArraySizeException': And(c.initialCapacity >= 1, c.initialQueues < 0)}
    def requires(self, c): return [('initial capacity at most 2^30', c.initialCapacity <= 2**30)]
    def witness(self, c):
        z = lambda v: defarr(c, 'g', lambda x: v)
        return {'ent': defarr2(c, 'ent', lambda h, p: M1), 'lo': z(I0), 'hi': z(I0), 'own': z(M1), 'pos': z(I0), 'fent': z(M1), 'fn': I0, 'fpos': z(M1), 'ps': z(I0)}
    def ensures(self, c): return emptied(c.this)


def emptied(o):
    m = Fresh('m', 'Int')
    return [('empty', Q2, And(Eq(o.size, I0), Eq(cnt(o, m), I0))), ('no entry handed out', Q3, And(Eq(o.maxEntry, M1), Eq(o.fn, I0)))]


class Clear(HyM):
    name = 'clear'
    mods = HyM.allm
    witness = Init.witness
    def ensures(self, c): return emptied(c.this)


class Add(HyM):
    first = False; mods = HyM.allm; pnames = ('listId', 'value')
    def requires(self, c):
        return [('list id from 0 on', And(c.listId >= 0, c.listId < BIG)), ('fewer than 2^31-2 entries', c.this.maxEntry < BIG - 1)]
    def witness(self, c):
        o, p, l, e = c.this, c.old.this, c.listId, c.res
        at = Sel(p.lo, l) - 1 if self.first else Sel(p.hi, l)
        w = {'ent': defarr2(c, 'ent', lambda m, i: Ite(And(Eq(m, l), Eq(i, at)), e, en(p, m, i))),
             'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), l, Sel(p.own, x))),
             'pos': defarr(c, 'pos', lambda x: Ite(Eq(x, e), at, Sel(p.pos, x))),
             'fn': Ite(p.fn > 0, p.fn - 1, p.fn), 'fpos': defarr(c, 'fpos', lambda x: Ite(Eq(x, e), M1, Sel(p.fpos, x)))}
        w['ps'] = defarr(c, 'ps', lambda x: Sel(p.ps, x) + Ite(x > l, I1, I0))
        if self.first: w['lo'] = defarr(c, 'lo', lambda x: Ite(Eq(x, l), at, Sel(p.lo, x)))
        else: w['hi'] = defarr(c, 'hi', lambda x: Ite(Eq(x, l), at + 1, Sel(p.hi, x)))
        return w
    def ensures(self, c):
        o, p, l, e = c.this, c.old.this, c.listId, c.res
        v = c.ex.term(c.argv('value')); j = Fresh('j', 'Int'); x = Fresh('x', 'Int')
        return [('the list grows by one', Q2, And(Eq(cnt(o, l), cnt(p, l) + 1), Eq(o.size, p.size + 1))),
                ('new value at the %s' % ('front' if self.first else 'back'), Q2, Eq(elem(o, l, I0 if self.first else cnt(p, l)), v)),
                ('the entry of the new value', Q23, And(Eq(en(o, l, Sel(o.lo, l) + (I0 if self.first else cnt(p, l))), e), Eq(Sel(o.own, e), l))),
                ('the other values of the list keep their order', Q2, Implies(And(I0 <= j, j < cnt(p, l)), Eq(elem(o, l, j + (1 if self.first else 0)), elem(p, l, j)))),
                ('no live element has the entry', Q3, And(e >= 0, Sel(p.own, e) < 0)),
                ('live entries stay live', Q3, Implies(Ne(x, e), Eq(Sel(o.own, x) >= 0, Sel(p.own, x) >= 0))),
                ('a freed entry if there is one, otherwise the lowest never handed out', Q3, Ite(p.fn > 0, And(Sel(p.fpos, e) >= 0, Eq(o.maxEntry, p.maxEntry)), And(Eq(e, p.maxEntry + 1), Eq(o.maxEntry, e)))),
                ('entries handed out never outnumber the most elements held at once', Q3, Implies(o.maxEntry > p.maxEntry, Eq(o.maxEntry + 1, o.size))),
                ] + other_lists(o, p, l)


class Remove(HyM):
    first = False; mods = tuple(x for x in HyM.allm if x != 'maxEntry'); pnames = ('listId',)
    def raises(self, c): return {NSE: cnt(c.this, c.listId) <= 0}
    def entry(self, c):
        p, l = c.old.this, c.listId
        return en(p, l, Sel(p.lo, l) if self.first else Sel(p.hi, l) - 1)
    def witness(self, c):
        p, l = c.old.this, c.listId
        e = self.entry(c)
        w = {'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), M1, Sel(p.own, x))),
             'fent': defarr(c, 'fent', lambda k: Ite(Eq(k, p.fn), e, Sel(p.fent, k))), 'fn': p.fn + 1,
             'fpos': defarr(c, 'fpos', lambda x: Ite(Eq(x, e), p.fn, Sel(p.fpos, x)))}
        w['ps'] = defarr(c, 'ps', lambda x: Sel(p.ps, x) - Ite(x > l, I1, I0))
        g = 'lo' if self.first else 'hi'
        w[g] = defarr(c, g, lambda x: Ite(Eq(x, l), Sel(getattr(p, g), l) + (1 if self.first else -1), Sel(getattr(p, g), x)))
        return w
    def ensures(self, c):
        o, p, l = c.this, c.old.this, c.listId; e = self.entry(c); j = Fresh('j', 'Int'); x = Fresh('x', 'Int')
        return [('the list shrinks by one', Q2, And(Eq(cnt(o, l), cnt(p, l) - 1), Eq(o.size, p.size - 1))),
                ('returns the %s value' % ('first' if self.first else 'last'), Q2, Eq(c.res, elem(p, l, I0 if self.first else cnt(p, l) - 1))),
                ('the other values of the list keep their order', Q2, Implies(And(I0 <= j, j < cnt(o, l)), Eq(elem(o, l, j), elem(p, l, j + (1 if self.first else 0))))),
                ('exactly that entry becomes free', Q3, And(Eq(Sel(o.fpos, x) >= 0, Or(Sel(p.fpos, x) >= 0, Eq(x, e))), Eq(o.fn, p.fn + 1))),
                ('the other live entries stay live', Q3, Eq(Sel(o.own, x) >= 0, And(Sel(p.own, x) >= 0, Ne(x, e)))),
                ('the freed slot reads as the default', G1, Eq(Sel(o.values.data, e), self.ty.default(c.ex)))] + other_lists(o, p, l)


class SizeAll(HyM):
    name = 'size'; desc = '()I'
    def ensures(self, c): return [('size', Q2, Eq(c.res, c.this.size))]


class SizeOf(HyM):
    name = 'size'; desc = '(I)I'; pnames = ('listId',)
    def ensures(self, c): return [('length of the list, 0 for unknown ids', Q2, Eq(c.res, cnt(c.this, c.listId)))]


class IsEmpty(HyM):
    name = 'isEmpty'
    def ensures(self, c): return [('isEmpty', Q2, Eq(Eq(c.res, I1), Eq(c.this.size, I0)))]


# ---------------------------------------------------------------- iterators
OUTER = 'this$0'
INV = P + 'exception/InvalidEntryException'


class ItCls(ClassSpec):
    """it: the list enumerated, ix: the position of the next element (position one past the end when none)"""
    ghosts = {'list': 'Int', 'ix': 'Int'}
    def __init__(self, ty, fwd):
        self.hc = HyCls(ty); self.fwd = fwd
        super().__init__(P + 'queue/%sHydraDeque$%s' % (ty.name, 'ForwardIterator' if fwd else 'ReverseIterator'))
    def field(self, ex, st, x):
        if x.name == OUTER: return self.hc.make(ex, st)
        return super().field(ex, st, x)
    def inv(self, it, ex):
        o = getattr(it, OUTER)
        return self.hc.inv(o, ex) + it_inv(it, o)


def it_inv(it, o):
    l, i = it.list, it.ix
    return [('iterator position', Q2, And(Sel(o.lo, l) <= i + 1, i <= Sel(o.hi, l))),
            ('iterator entry', Q2, Eq(it.entry, Ite(And(Sel(o.lo, l) <= i, i < Sel(o.hi, l)), en(o, l, i), M1)))]


class ItM(MethodSpec):
    tags = Q2; exc_tags = Q2; props = Q2
    def __init__(self, ty, fwd, **kw):
        self.ty = ty; self.fwd = fwd; self.cspec = ItCls(ty, fwd); self.cls = self.cspec.cls; super().__init__(**kw)
    def at_end(self, it, o): return Not(And(Sel(o.lo, it.list) <= it.ix, it.ix < Sel(o.hi, it.list)))


class ItNext(ItM):
    name = 'next'; mods = ('entry', 'ix')
    def raises(self, c): return {INV: self.at_end(c.this, getattr(c.this, OUTER))}
    def witness(self, c): return {'ix': c.this.ix + (1 if self.fwd else -1)}
    def ensures(self, c):
        it, q = c.this, c.old.this; o = getattr(it, OUTER)
        return [('the value at the position, then the %s one' % ('following' if self.fwd else 'preceding'), Q2,
                 And(Eq(c.res, Sel(o.values.data, en(o, q.list, q.ix))), Eq(it.ix, q.ix + (1 if self.fwd else -1)), Eq(it.list, q.list)))]


class ItHasNext(ItM):
    name = 'hasNext'
    def ensures(self, c):
        it = c.this
        return [('exactly until every element was returned', Q2, Eq(Eq(c.res, I1), Not(self.at_end(it, getattr(it, OUTER)))))]


class Iterator(HyM):
    """iterator(list) / iterator(list, previous iterator or null)"""
    tags = Q2; exc_tags = Q2; props = Q2; pnames = ('listId', 'iterator'); fwd = True; null = False
    def __init__(self, ty, **kw):
        super().__init__(ty, **kw)
        self.it = ItCls(ty, self.fwd)
    def key(self): return super().key() + ('' if len(self.pnames) < 2 or not self.null else ' of null')
    @property
    def mods(self): return () if len(self.pnames) < 2 or self.null else ('arg:iterator',)
    def requires(self, c): return [('list id from 0 on', c.listId >= 0)]
    def args_make(self, ex, st, n, d):
        if n != 'iterator': return super().args_make(ex, st, n, d)
        return NULL if self.null else self.it.make(ex, st)
    def world(self, ex, st, fr):
        v = fr.args.get('iterator')
        if isinstance(v, Loc): st.setf(v.n, OUTER, fr.this)
    def ensures(self, c):
        v = c.resv; st = c.st
        ok = isinstance(v, Loc) and getattr(st.heap[v.n], 'cls', '') == self.it.cls and isinstance(st.heap[v.n].f[OUTER], Loc) and st.heap[v.n].f[OUTER].n == c.fr.this.n
        if not ok: return [('an iterator over this deque', Q2, FALSE)]
        o = c.this; l = c.listId
        st.heap[v.n].f['$list'] = l
        st.heap[v.n].f['$ix'] = Sel(o.lo, l) if self.fwd else Sel(o.hi, l) - 1
        return it_inv(View(c.ex, st, v.n), o)


def specs(types):
    out = []
    for ty in types:
        I = 'L%sfunctional/%sIterator;' % (P, ty.name)
        out += [Init(ty), Add(ty, name='addFirst', first=True), Add(ty, name='addLast'), Remove(ty, name='removeFirst', first=True), Remove(ty, name='removeLast'),
                SizeAll(ty), SizeOf(ty), IsEmpty(ty), Clear(ty)]
        for fwd in (True, False):
            nm = 'iterator' if fwd else 'reverseIterator'
            out += [ItNext(ty, fwd), ItHasNext(ty, fwd), Iterator(ty, name=nm, desc='(I)' + I, pnames=('listId',), fwd=fwd),
                    Iterator(ty, name=nm, desc='(I%s)%s' % (I, I), fwd=fwd), Iterator(ty, name=nm, desc='(I%s)%s' % (I, I), fwd=fwd, null=True)]
    return out
