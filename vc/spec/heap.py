"""K01-K04: indexed heaps.

T = size + freeCount entries have been handed out; tree and inverse are inverse permutations of [0, T), live entries sit below size.
A comparator is known only through ord(f, key): compare(a, b) has the sign of ord(a) - ord(b), which exists for every total preorder
on the keys ever used. Ghost field n: how many leading nodes are in heap order (size between operations)."""
from ..contract import *
from .types import *
from .arrays import contracts
from .hash import nonnullf, I0, I1, M1

KALL = ('K01', 'K02', 'K03', 'K04')
K1, K2, K3, K4 = [(k,) for k in KALL]
KEEP = ('K02', 'K04')
RTE = 'java/lang/RuntimeException'
RANGE = P + 'exception/RangeCheckException'
INVALID = P + 'exception/InvalidEntryException'
RESIZE = P + 'exception/ResizeException'
CAP = 2**29


def ordk(o, k): return App('ordk_' + k.sort if isinstance(k.sort, str) else 'ordk', 'Real', o.comp, k)
def te(o, i): return Sel(o.tree.data, i)
def inv(o, e): return Sel(o.inverse.data, e)
def nk(o, i): return ordk(o, Sel(o.keys.data, te(o, i)))
def T_(o): return o.size + o.freeCount
def live(o, e): return And(I0 <= e, e < T_(o), inv(o, e) < o.size)


def dflt(ex, v): return v if isinstance(v, Term) else ex.term(v)


def edges(o, n, skip=None):
    """heap order between nodes below n; skip: a node whose edges are left out"""
    def f(p, i):
        g = [I0 <= p, Or(Eq(i, p + p + 1), Eq(i, p + p + 2)), i < n]
        if skip is not None: g += [Ne(p, skip), Ne(i, skip)]
        return Implies(And(*g), nk(o, p) <= nk(o, i))
    return Forall(['Int', 'Int'], f, lambda p, i: [(te(o, p), te(o, i))])


def above(o, h, x):
    """every child of h precedes nothing that x does not: the parent of h is at most x"""
    return Forall('Int', lambda p: Implies(And(I0 <= p, Or(Eq(h, p + p + 1), Eq(h, p + p + 2))), nk(o, p) <= x), lambda p: te(o, p))


def bridge(o, h, n):
    """the parent of h is at most the children of h"""
    return Forall(['Int', 'Int'], lambda p, i: Implies(And(I0 <= p, Or(Eq(h, p + p + 1), Eq(h, p + p + 2)), Or(Eq(i, h + h + 1), Eq(i, h + h + 2)), i < n), nk(o, p) <= nk(o, i)),
                  lambda p, i: [(te(o, p), te(o, i))])


def below(o, h, n, x):
    """x is at most the children of h"""
    return Forall('Int', lambda i: Implies(And(Or(Eq(i, h + h + 1), Eq(i, h + h + 2)), i < n), x <= nk(o, i)), lambda i: te(o, i))


def perm(o, h=None, e=None):
    """tree and inverse are inverse to each other on [0, T); node h, to be filled with entry e, left out"""
    T = T_(o)
    skip_i = (lambda i: Ne(i, h)) if h is not None else (lambda i: TRUE)
    skip_e = (lambda x: Ne(x, e)) if h is not None else (lambda x: TRUE)
    return And(Forall('Int', lambda i: Implies(And(I0 <= i, i < T, skip_i(i)), And(I0 <= te(o, i), te(o, i) < T, skip_e(te(o, i)), Eq(inv(o, te(o, i)), i))), lambda i: te(o, i)),
               Forall('Int', lambda x: Implies(And(I0 <= x, x < T, skip_e(x)), And(I0 <= inv(o, x), inv(o, x) < T, skip_i(inv(o, x)), Eq(te(o, inv(o, x)), x))), lambda x: inv(o, x)))


def untouched(o):
    return Forall('Int', lambda x: Implies(And(T_(o) <= x, x < o.inverse.len), Eq(inv(o, x), I0)), lambda x: inv(o, x))


class HeapCls(ClassSpec):
    ghosts = {'n': 'Int'}
    def __init__(self, kt, vt):
        self.kt = kt; self.vt = vt
        super().__init__(P + 'heap/%s%sHeap' % (kt.name, vt.name))
    def numeric(self, o):
        c = o.tree.len
        return [('capacity', KALL, And(c >= 1, c <= CAP, Eq(o.inverse.len, c), Eq(o.keys.len, c), Eq(o.values.len, c), o.size >= 0, o.freeCount >= 0, T_(o) <= c)),
                ('comparator is set', KALL, nonnullf(o.comp))]
    def inv(self, o, ex):
        out = self.numeric(o)
        out += [('nodes and entries correspond', KALL, perm(o)),
                ('entries not handed out have no node', KALL, untouched(o)),
                ('heap order', K1, edges(o, o.size)), ('ordered nodes', K1, Eq(o.n, o.size))]
        for a, d in (('keys', dflt(ex, o.defaultKey)), ('values', dflt(ex, o.defaultValue))):
            x = getattr(o, a)
            out.append(('entries that are not live read as the default of %s' % a, K4,
                        Forall('Int', lambda e: Implies(And(I0 <= e, e < x.len, Or(e >= T_(o), inv(o, e) >= o.size)), Eq(Sel(x.data, e), d)), lambda e: Sel(x.data, e))))
        return out


class KM(MethodSpec):
    tags = KALL; exc_tags = KALL; props = KALL
    elems = frozenset(['keys', 'key', 'values', 'value', 'defaultValue', 'defaultKey', 'newKey', 'parentKey'])
    side = frozenset(['values', 'value', 'values_len', 'defaultValue'])
    def __init__(self, kt, vt, **kw):
        self.kt = kt; self.vt = vt; self.cspec = HeapCls(kt, vt); self.cls = self.cspec.cls; self.variant = self.cls.split('/')[-1]
        super().__init__(**kw)
        self.uses = contracts(TYPES['Int']) + (contracts(kt) if kt.name != 'Int' else ()) + (contracts(vt) if vt.name not in ('Int', kt.name) else ()) + tuple(k(kt, vt) for k in self.calls)
    calls = ()
    def key(self): return '%s.%s%s' % (self.variant, self.name, self.desc[:self.desc.index(')') + 1] if self.desc else '')
    def callback(self, ex, st, fr, fn, name, args):
        if name == 'compare':
            a, b = [App('ordk_' + ex.term(x).sort, 'Real', fn.t, ex.term(x)) for x in args]
            r = Fresh('cmp', 'Int')
            st.assume(And(ex.dom.inrange(r, 'I'), Eq(r < 0, a < b), Eq(r > 0, a > b)))
            return [(st, 'ret', V('I', r, 'I'))]
        return None


def same_entries(o, p, but=None):
    """keys and values of the live entries of p (other than but)"""
    out = []
    for a in ('keys', 'values'):
        x, y = getattr(o, a).data, getattr(p, a).data
        out.append(('live entries keep their %s' % a, KEEP, Forall('Int', lambda e: Implies(And(live(p, e), TRUE if but is None else Ne(e, but)), Eq(Sel(x, e), Sel(y, e))), lambda e: Sel(x, e))))
    return out


def same_live(o, p):
    x = Fresh('x', 'Int')
    return [('the same entries are live', ('K02', 'K03', 'K04'), Eq(live(o, x), live(p, x)))]


# ---------------------------------------------------------------- sifting
class Sift(KM):
    use_inv = False; pure_fail = False
    mods = ('[tree', '[inverse', 'n')
    def hole(self, c): return c.argv(self.pnames[0]).t
    def k(self, c): return ordk(c.this, c.ex.term(c.argv('key')))
    def N(self, c): return c.old.this.size
    def base(self, c, o, h):
        """the hole h is to be filled with the entry"""
        e = c.entry
        return [('arrays', KALL, And(*[t for _, _, t in self.cspec.numeric(o)])),
                ('node and entry in range', KALL, And(I0 <= h, h < o.size, I0 <= e, e < T_(o))),
                ('nodes and entries correspond', KALL, perm(o, h, e))]
    def stay(self, c):
        """nodes from size on and entries not live stay"""
        o, p = c.this, c.old.this
        return [('capacity stays', KALL, And(Eq(o.tree.len, p.tree.len), Eq(o.inverse.len, p.inverse.len))),
                ('nodes from size on stay', KALL, Forall('Int', lambda i: Implies(i >= p.size, Eq(te(o, i), te(p, i))), lambda i: te(o, i))),
                ('the same entries are below size', KALL, Forall('Int', lambda x: Implies(And(I0 <= x, x < o.inverse.len, Ne(x, c.entry)), Ite(And(x < T_(p), inv(p, x) < p.size), inv(o, x) < p.size, Eq(inv(o, x), inv(p, x)))), lambda x: [(inv(o, x),), (inv(p, x),)])),
                ]
    def pre(self, c): return c.fr.pre is None


class FilterUp(Sift):
    name = 'filterUp'; pnames = ('child', 'key', 'entry')
    def Np(self, p, h): return Ite(p.n > h, Ite(p.n < p.size, p.n, p.size), h + 1)
    def requires(self, c):
        o, h = c.this, c.child; N = self.Np(o, h)
        return [(l, t) for l, g, t in self.base(c, o, h)] + [
            ('the key of the entry', Eq(Sel(o.keys.data, c.entry), c.ex.term(c.argv('key')))),
            ('heap order apart from the node', And(h <= o.n, edges(o, N, h), bridge(o, h, N)))]
    def order(self, c, o, h, h0):
        N = self.Np(c.old.this, h0)
        return [('heap order apart from the node', K1, edges(o, N, h)), ('around the node', K1, bridge(o, h, N)),
                ('below the node', K1, Or(Eq(h, h0), below(o, h, N, self.k(c))))]
    @property
    def loops(self):
        return [LoopSpec('sift up', 'filterUp', vars={'child': 'I'}, assigns=('child',),
                         inv=lambda c, L: [('position', KALL, L.child <= c.old.child)] + self.base(c, c.this, L.child) + self.stay(c) + self.order(c, c.this, L.child, c.old.child),
                         variant=lambda c, L: L.child)]
    def witness(self, c): return {'n': self.Np(c.old.this, c.old.child)}
    def ensures(self, c):
        o, p, h0 = c.this, c.old.this, c.old.child; N = self.Np(p, h0); r = c.res; e = c.entry
        return [('the entry is placed', KALL, And(I0 <= r, r <= h0, Eq(te(o, r), e), Eq(inv(o, e), r))),
                ('nodes and entries correspond', KALL, perm(o))] + self.stay(c) + \
            [('ordered nodes', K1, Eq(o.n, N))] + self.order(c, o, r, h0) + [('above the node', K1, above(o, r, self.k(c)))]


class FilterDown(Sift):
    name = 'filterDown'; pnames = ('parent', 'key', 'entry')
    def requires(self, c):
        o, h = c.this, c.parent
        return [(l, t) for l, g, t in self.base(c, o, h)] + [
            ('the key of the entry', Eq(Sel(o.keys.data, c.entry), c.ex.term(c.argv('key'))))] + [(l, t) for l, g, t in self.order(c, o, h)]
    def order(self, c, o, h):
        N = o.size
        return [('heap order apart from the node', K1, edges(o, N, h)), ('around the node', K1, bridge(o, h, N)), ('above the node', K1, above(o, h, self.k(c)))]
    @property
    def loops(self):
        return [LoopSpec('sift down', 'filterDown', vars={'parent': 'I'}, assigns=('parent',),
                         inv=lambda c, L: self.base(c, c.this, L.parent) + self.stay(c) + self.order(c, c.this, L.parent),
                         variant=lambda c, L: c.this.size - L.parent)]
    def witness(self, c): return {'n': c.old.this.size}
    def ensures(self, c):
        o = c.this
        return [('nodes and entries correspond', KALL, perm(o)), ('the entry is placed', KALL, And(I0 <= inv(o, c.entry), inv(o, c.entry) < o.size))] + self.stay(c) + [
            ('ordered nodes', K1, Eq(o.n, o.size)), ('heap order', K1, edges(o, o.size))]


# ---------------------------------------------------------------- operations
class Init(KM):
    name = '<init>'; inv_pre = False; pnames = ('initialCapacity',)
    def requires(self, c): return [('initial capacity from 1 to 2^29', And(c.initialCapacity >= 1, c.initialCapacity <= CAP))]
    def witness(self, c): return {'n': I0}
    def ensures(self, c): return [('empty', KALL, And(Eq(c.this.size, I0), Eq(c.this.freeCount, I0)))]


class Clear(KM):
    name = 'clear'; mods = ('tree', 'inverse', 'keys', 'values', 'freeCount', 'size', 'modCount', 'n')
    def witness(self, c): return {'n': I0}
    def ensures(self, c):
        o = c.this; x = Fresh('x', 'Int')
        return [('empty', KALL, And(Eq(o.size, I0), Eq(o.freeCount, I0)))] + \
            [('every entry reads as the default of %s' % a, K4, Implies(And(I0 <= x, x < getattr(o, a).len), Eq(Sel(getattr(o, a).data, x), d))) for a, d in (('keys', dflt(c.ex, o.defaultKey)), ('values', dflt(c.ex, o.defaultValue)))]


class Insert(KM):
    name = 'insert'; calls = (FilterUp,); withval = False
    mods = ('tree', 'inverse', 'keys', 'values', 'freeCount', 'size', 'modCount', 'n')
    pure_fail = True
    def raises(self, c): return {RESIZE: And(Eq(c.this.size, c.this.keys.len), Eq(c.this.freeCount, I0), c.this.keys.len >= CAP)}
    def witness(self, c): return {'n': c.this.size}
    def ensures(self, c):
        o, p, e = c.this, c.old.this, c.res; x = Fresh('x', 'Int')
        return [('one entry more', KALL, Eq(o.size, p.size + 1)),
                ('the entry was not live', ('K02', 'K03'), And(e >= 0, Not(live(p, e)))),
                ('exactly that entry becomes live', KALL, Eq(live(o, x), Or(live(p, x), Eq(x, e)))),
                ('it holds the key', KEEP, Eq(Sel(o.keys.data, e), c.ex.term(c.argv('key')))),
                ('it holds the %s value' % ('given' if self.withval else 'default'), KEEP, Eq(Sel(o.values.data, e), c.ex.term(c.argv('value')) if self.withval else o.defaultValue)),
                ('freed entries are reused before new ones', K2, Ite(p.freeCount > 0, And(e < T_(p), Eq(T_(o), T_(p))), And(Eq(e, T_(p)), Eq(T_(o), T_(p) + 1)))),
                ] + same_entries(o, p)


class RemoveAt(KM):
    name = 'removeAt'; pnames = ('entry',); calls = (FilterUp, FilterDown)
    mods = ('tree', 'inverse', 'keys', 'values', 'freeCount', 'size', 'n')
    def raises(self, c):
        o, e = c.this, c.entry
        out = Or(e < 0, e >= o.inverse.len)
        return {RANGE: out, INVALID: And(Not(out), Not(live(o, e)))}
    def witness(self, c): return {'n': c.this.size}
    def ensures(self, c):
        o, p, e = c.this, c.old.this, c.entry; x = Fresh('x', 'Int')
        return [('one entry fewer', KALL, And(Eq(o.size, p.size - 1), Eq(o.freeCount, p.freeCount + 1))),
                ('exactly that entry is gone', KALL, Eq(live(o, x), And(live(p, x), Ne(x, e)))),
                ('it reads as the defaults', K4, And(Eq(Sel(o.keys.data, e), o.defaultKey), Eq(Sel(o.values.data, e), o.defaultValue))),
                ] + same_entries(o, p, e)


class ResetKey(KM):
    name = 'resetKey'; pnames = ('entry', 'newKey'); calls = (FilterUp, FilterDown)
    mods = ('[tree', '[inverse', '[keys', 'n')
    def requires(self, c): return [('a live entry', live(c.this, c.entry))]
    def ensures(self, c):
        o, p, e = c.this, c.old.this, c.entry
        return [('it holds the new key', KEEP, Eq(Sel(o.keys.data, e), c.ex.term(c.argv('newKey'))))] + same_live(o, p) + same_entries(o, p, e)[:1]
    def witness(self, c): return {'n': c.this.size}


class SetComparator(KM):
    name = 'setComparator'; pnames = ('newComparator',); nullable = ('newComparator',); calls = (FilterUp,)
    mods = ('comp', '[tree', '[inverse', 'modCount', 'n')
    def raises(self, c): return {'java/lang/NullPointerException': Eq(c.newComparator, NULLF)}
    @property
    def loops(self):
        def linv(c, L):
            o, p = c.this, c.old.this
            return [('position', KALL, L.iter <= o.size), ('arrays', KALL, And(*[t for _, _, t in self.cspec.numeric(o)])),
                    ('nodes and entries correspond', KALL, perm(o)), ('entries not handed out have no node', KALL, untouched(o)),
                    ('nodes from size on stay', KALL, Forall('Int', lambda i: Implies(i >= p.size, Eq(te(o, i), te(p, i))), lambda i: te(o, i))),
                    ('the same entries are below size', KALL, Forall('Int', lambda x: Implies(And(I0 <= x, x < T_(p)), Eq(inv(o, x) < p.size, inv(p, x) < p.size)), lambda x: [(inv(o, x),), (inv(p, x),)])),
                    ('ordered nodes', K1, Eq(o.n, L.iter)), ('heap order', K1, edges(o, L.iter))]
        return [LoopSpec('rebuild', 'setComparator', inv=linv, variant=lambda c, L: c.this.size - L.iter, gmods=('n',), ginit=lambda c, L: {'n': I0})]
    def witness(self, c): return {'n': c.this.size}
    def ensures(self, c): return [('in force', KALL, Eq(c.this.comp, c.newComparator))] + same_live(c.this, c.old.this)


class Least(Lemma):
    """in a heap no node precedes the root"""
    name = 'the root of a heap is least'; tags = K1; props = K1
    def obligations(self, ex):
        a = Fresh('a', ArrS('Int', 'Real')); n, i = Fresh('n', 'Int'), Fresh('i', 'Int'); p = Fresh('p', 'Int')
        order = Forall(['Int', 'Int'], lambda p, i: Implies(And(I0 <= p, Or(Eq(i, p + p + 1), Eq(i, p + p + 2)), i < n), Sel(a, p) <= Sel(a, i)), lambda p, i: [(Sel(a, p), Sel(a, i))])
        ih = Forall('Int', lambda j: Implies(And(I0 <= j, j < i), Sel(a, I0) <= Sel(a, j)), lambda j: Sel(a, j))
        parent = And(I0 <= p, Or(Eq(i, p + p + 1), Eq(i, p + p + 2)))
        q = DivE(i - 1, 2)
        return [('every node but the root has a parent before it', K1, [i > 0], And(I0 <= q, Or(Eq(i, q + q + 1), Eq(i, q + q + 2)), q < i)),
                ('induction step at the root', K1, [order, ih, Eq(i, I0)], Sel(a, I0) <= Sel(a, i)),
                ('induction step', K1, [order, ih, i > 0, i < n, parent, p < i], Sel(a, I0) <= Sel(a, i))]


class Peek(KM):
    name = 'peek'
    def raises(self, c): return {RTE: Eq(c.this.size, I0)}
    def lemmas(self, c):
        """instance of the induction lemma for the node of an arbitrary live entry"""
        o = c.this
        return [Forall('Int', lambda i: Implies(And(I0 <= i, i < o.size), nk(o, I0) <= nk(o, i)), lambda i: te(o, i))]
    def ensures(self, c):
        o = c.this; x = Fresh('x', 'Int'); K = lambda e: ordk(o, Sel(o.keys.data, e))
        return [('a live entry', K1 + K2, live(o, c.res)), ('no live key precedes its key', K1, Implies(live(o, x), K(c.res) <= K(x)))]


class GetSize(KM):
    name = 'getSize'
    def ensures(self, c): return [('number of live entries', KALL, Eq(c.res, c.this.size))]


class IsEmpty(KM):
    name = 'isEmpty'
    def ensures(self, c): return [('empty exactly without live entries', KALL, Eq(Eq(c.res, I1), Eq(c.this.size, I0)))]


class IsValid(KM):
    name = 'isValidEntry'; pnames = ('entry',); tags = K3; exc_tags = K3; props = K3
    def ensures(self, c): return [('exactly for live entries', K3, Eq(Eq(c.res, I1), live(c.this, c.entry)))]


class ForEachEntry(KM):
    name = 'forEachEntry'; nullable = (); tags = K3; exc_tags = K3; props = K3; pnames = ('entryConsumer',); calls = (IsValid,)
    def world(self, ex, st, fr):
        if isinstance(fr.args['entryConsumer'], Opq): st.assume(Ne(fr.args['entryConsumer'].t, NULLE))
        st.g['seen'] = ConstArr(ArrS('Int', 'Bool'), FALSE)
    def callback(self, ex, st, fr, fn, name, args):
        if name == 'compare': return super().callback(ex, st, fr, fn, name, args)
        o = View(ex, st, fr.this.n); e = args[0].t
        ex.oblige(st, 'visits live entries only', live(o, e), 'visit')
        ex.oblige(st, 'visits no entry twice', Not(Sel(st.g['seen'], e)), 'visit')
        st.g['seen'] = Sto(st.g['seen'], e, TRUE)
        return [(st, 'ret', None)]
    @property
    def loops(self):
        def linv(c, L):
            o = c.this
            return [('position', K3, L.iter < o.inverse.len if L.bottom else L.iter <= o.inverse.len),
                    ('entries visited', K3, Forall('Int', lambda x: Eq(Sel(c.g['seen'], x), And(live(o, x), x < L.iter)), lambda x: [(Sel(c.g['seen'], x),)]))]
        def upto(c, L):
            o = c.this; e = L.entry
            return [('position', K3, And(e >= 0, e <= o.inverse.len)),
                    ('entries visited', K3, Forall('Int', lambda x: Eq(Sel(c.g['seen'], x), And(live(o, x), x < e)), lambda x: [(Sel(c.g['seen'], x),)]))]
        def jump(c, L):
            return upto(c, L) + [('at a live entry', K3, Or(Eq(L.entry, c.this.inverse.len), live(c.this, L.entry)))]
        return [LoopSpec('entries', 'forEachEntry', inv=linv, variant=lambda c, L: c.this.inverse.len - L.iter)] + \
            [LoopSpec(n, 'forEachEntry', vars={'entry': 'I'}, assigns=('entry',), inv=i, variant=lambda c, L: c.this.inverse.len - L.entry) for n, i in (('live entries', jump), ('up to an entry', upto))]
    def ensures(self, c):
        x = Fresh('x', 'Int')
        return [('every live entry is visited', K3, Implies(live(c.this, x), Sel(c.g['seen'], x)))]


class GetFirstEntry(KM):
    name = 'getFirstEntry'; pnames = ('key',); tags = K3; exc_tags = K3; props = K3
    def k(self, c): return ordk(c.this, c.ex.term(c.argv('key')))
    @property
    def loops(self):
        def linv(c, L):
            o = c.this
            return [('position', K3, L.iter <= o.size),
                    ('no equal key so far', K3, Forall('Int', lambda j: Implies(And(I0 <= j, j < L.iter), Ne(nk(o, j), self.k(c))), lambda j: te(o, j)))]
        return [LoopSpec('scan', 'getFirstEntry', inv=linv, variant=lambda c, L: c.this.size - L.iter)]
    def ensures(self, c):
        o = c.this; x = Fresh('x', 'Int'); K = lambda e: ordk(o, Sel(o.keys.data, e))
        return [('a live entry with an equal key, or -1', K3, Or(Eq(c.res, M1), And(live(o, c.res), Eq(K(c.res), self.k(c))))),
                ('-1 only without equal key', K3, Forall('Int', lambda x: Implies(And(c.res < 0, live(o, x)), Ne(K(x), self.k(c))), lambda x: inv(o, x)))]


class ContainsKey(KM):
    name = 'containsKey'; pnames = ('key',); tags = K3; exc_tags = K3; props = K3; calls = (GetFirstEntry,)
    k = GetFirstEntry.k
    def ensures(self, c):
        o = c.this; x = Fresh('x', 'Int'); K = lambda e: ordk(o, Sel(o.keys.data, e))
        hit = Fresh('hit', 'Int')
        return [('when a live entry has an equal key', K3, Implies(And(live(o, x), Eq(K(x), self.k(c))), Eq(c.res, I1))),
                ('only when a live entry has an equal key', K3, Implies(Eq(c.res, I1), Not(Forall('Int', lambda x: Not(And(live(o, x), Eq(K(x), self.k(c)))), lambda x: inv(o, x)))))]


class GetAt(KM):
    arr = 'keys'; pnames = ('entry',)
    def raises(self, c): return {'java/lang/ArrayIndexOutOfBoundsException': Or(c.entry < 0, c.entry >= c.this.keys.len)}
    def ensures(self, c): return [('what the entry holds', KEEP, Eq(c.ex.term(c.resv), Sel(getattr(c.this, self.arr).data, c.entry)))]


class GetValueOr(KM):
    name = 'getValueAtOrDefault'; pnames = ('entry', 'defaultValue')
    def ensures(self, c):
        o, e = c.this, c.entry
        return [('the value, or the given default out of range', KEEP, Eq(c.ex.term(c.resv), Ite(Or(e < 0, e >= o.values.len), c.ex.term(c.argv('defaultValue')), Sel(o.values.data, e))))]


class SetValueAt(KM):
    name = 'setValueAt'; pnames = ('entry', 'value'); mods = ('values',)
    def requires(self, c): return [('a live entry', live(c.this, c.entry))]
    def ensures(self, c):
        o, p = c.this, c.old.this; x = Fresh('x', 'Int')
        return [('the value set', KEEP, Eq(Sel(o.values.data, c.entry), c.ex.term(c.argv('value')))),
                ('other values stay', KEEP, Implies(And(Ne(x, c.entry), I0 <= x, x < o.values.len), Eq(Sel(o.values.data, x), Sel(p.values.data, x))))]


class SetDefault(KM):
    arr = 'keys'; field = 'defaultKey'
    pnames = ('d',); tags = KALL
    @property
    def mods(self): return (self.arr, self.field)
    def raises(self, c): return {('java/lang/UnsupportedOperationException' if self.arr == 'keys' else RTE): c.this.size > 0}
    def ensures(self, c):
        o = c.this; d = c.ex.term(c.argv('d')); ty = self.kt if self.arr == 'keys' else self.vt
        cur = getattr(o, self.field)
        return [('in force', K4, eqv(c.ex, ty, cur, d))]


def eqv(ex, ty, a, b):
    """equality of the type as its EqImpl decides it: identical, or equal under =="""
    if ty.name in ('Float', 'Double'): return Or(Eq(a, b), App('feq_' + ty.k, 'Bool', a, b))
    if ty.ref: return Or(Eq(a, b), App('objEquals', 'Bool', a, b))
    return Eq(a, b)


class GetDefault(KM):
    field = 'defaultKey'
    def ensures(self, c): return [('the default in force', K4, Eq(c.ex.term(c.resv), getattr(c.this, self.field)))]


def build(pairs):
    out = [Least()]
    for kt, vt in pairs:
        K, D = [t.d for t in (kt, vt)]
        out += [k(kt, vt) for k in (FilterUp, FilterDown, Init, Clear, RemoveAt, ResetKey, SetComparator, Peek, GetSize, IsEmpty, IsValid, ForEachEntry, GetFirstEntry, ContainsKey, GetValueOr, SetValueAt)]
        out += [Insert(kt, vt, desc='(%s)I' % K, pnames=('key',)), Insert(kt, vt, desc='(%s%s)I' % (K, D), pnames=('key', 'value'), withval=True),
                GetAt(kt, vt, name='getKeyAt'), GetAt(kt, vt, name='getValueAt', arr='values'),
                SetDefault(kt, vt, name='setDefaultKey'), SetDefault(kt, vt, name='setDefaultValue', arr='values', field='defaultValue'),
                GetDefault(kt, vt, name='getDefaultKey'), GetDefault(kt, vt, name='getDefaultValue', field='defaultValue')]
    return out


KT = [t for t in ALL if t.name != 'Bool']


def specs(types): return build([(t, t) for t in types])


def tier_specs(tier, prop):
    """quick: every key type and every value type at least once; thorough: every heap"""
    T = TYPES
    if tier == 'quick': pairs = [(T[a], T[b]) for a, b in (('Int', 'Long'), ('Long', 'Bool'), ('Byte', 'Float'), ('Short', 'Byte'), ('Char', 'Short'), ('Float', 'Char'), ('Double', 'String'), ('String', 'Double'), ('Generic', 'Generic'), ('Long', 'Int'))]
    else: pairs = [(a, b) for a in KT for b in ALL]
    return [x for x in build(pairs) if prop is None or prop in x.props]
