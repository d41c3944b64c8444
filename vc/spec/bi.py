"""B01, B02: one-to-many and many-to-many relations.

Ghost state of a side: seq[k][p] the entries listed under key k (position 0 is the end of the list), cl[k] their number; own[e], pos[e]
key and position of a listed entry (own = -1 otherwise); ps[k] the number of entries listed under keys below k. A relation is a set of packed pairs (hash.py) and one or two sides: entry e is
listed under the high (low) half of its packed pair exactly when it is live in the set."""
from ..contract import *
from .types import *
from .arrays import contracts
from .hash import (HCls, HM, cls_of, defarr, defarr2, AI, I0, I1, M1, CAP, AIOOBE, GH)
from . import hash as H
from . import nums

BALL = ('B01', 'B02')
B1, B2 = ('B01',), ('B02',)
L = TYPES['Long']
OUTER = 'this$0'
ISE = 'java/lang/IllegalStateException'
BI = P + 'bi/'
KMAX = 2**31 - 2


# ---------------------------------------------------------------- packing
def pack(a, b): return App('pack', 'Int', a, b)
def hi(v): return App('hi32', 'Int', v)
def lo(v): return App('lo32', 'Int', v)


class PackM(MethodSpec):
    """decided over bit-vectors; the integer-mode contract restates the same facts"""
    cls = P + 'types/Pack'; mode = 'bv'; tags = BALL; props = BALL; fresh_arrays = False


class PackToLong(PackM):
    name = 'packToLong'; pnames = ('hi', 'lo')
    def ensures(self, c):
        a, b, r = c.hi, c.lo, c.res
        if c.ex.mode == 'int': return [('packed', BALL, And(Eq(r, pack(a, b)), Eq(hi(r), a), Eq(lo(r), b)))]
        return [('packed', BALL, Eq(r, Op('concat', ('BV', 64), a, b)))]


class Unpack(PackM):
    pnames = ('value',)
    def ensures(self, c):
        v, r = c.value, c.res; up = self.name == 'unpackHiInt'
        if c.ex.mode == 'int': return [('half', BALL, Eq(r, hi(v) if up else lo(v)))]
        return [('half', BALL, Eq(r, Op('(_ extract 63 32)' if up else '(_ extract 31 0)', ('BV', 32), v)))]


PK = (PackToLong(), Unpack(name='unpackHiInt'), Unpack(name='unpackLoInt'))


def pack_facts():
    """of concatenation and extraction; the range of a half is that of int"""
    inr = lambda t, k: And(IntC(-2**(k - 1)) <= t, t < IntC(2**(k - 1)))
    return [Forall('Int', lambda v: Implies(inr(v, 64), And(Eq(pack(hi(v), lo(v)), v), inr(hi(v), 32), inr(lo(v), 32))), lambda v: [(hi(v),), (lo(v),)]),
            Forall(['Int', 'Int'], lambda a, b: Implies(And(inr(a, 32), inr(b, 32)), And(Eq(hi(pack(a, b)), a), Eq(lo(pack(a, b)), b), inr(pack(a, b), 64))), lambda a, b: pack(a, b))]


class PackFacts(Lemma):
    """the facts assumed of pack, hi and lo in integer mode, for the bit-vector functions the contracts above give them"""
    name = 'pack, hi and lo'; tags = BALL; props = BALL; mode = 'bv'
    def obligations(self, ex):
        v = Fresh('v', ('BV', 64)); a, b = Fresh('a', ('BV', 32)), Fresh('b', ('BV', 32))
        h = lambda x: Op('(_ extract 63 32)', ('BV', 32), x); l = lambda x: Op('(_ extract 31 0)', ('BV', 32), x)
        p = lambda x, y: Op('concat', ('BV', 64), x, y)
        return [('halves of a packed pair', BALL, [], And(Eq(h(p(a, b)), a), Eq(l(p(a, b)), b))), ('packing the halves', BALL, [], Eq(p(h(v), l(v)), v))]


class LongEquality(Prog):
    """the equality the set of packed pairs uses tells all different pairs apart"""
    name = 'equality of packed pairs'; tags = BALL; props = BALL
    def program(self, ex, st, c):
        f = c.field(st, P + 'types/LongType', 'EqImpl', 'L%stypes/LongType$Eq;' % P)
        a, b = c.arg(st, 'a', 'J'), c.arg(st, 'b', 'J')
        for s, r in c.only(ex.call(st, 'invokeinterface', P + 'types/LongType$Eq', 'areEqual', '(JJ)Z', [f, a, b]), 'areEqual'):
            c.prove(s, 'equal exactly when the same', Eq(Eq(r.t, I1), Eq(a.t, b.t)))


# ---------------------------------------------------------------- one side
def sq(o, k, p): return Sel(Sel(o.seq, k), p)


class SideCls(ClassSpec):
    ghosts = {'seq': ArrS('Int', AI), 'cl': AI, 'own': AI, 'pos': AI, 'ps': AI}
    def __init__(self, counts): self.counts = counts; super().__init__(BI + 'Side')
    def field(self, ex, st, x):
        if x.name == 'count' and not self.counts: return NULL
        return super().field(ex, st, x)
    def inv(self, o, ex):
        n, N = o.heads.len, o.nexts.len
        cl, own, pos, hd, nx, pv = o.cl, o.own, o.pos, o.heads.data, o.nexts.data, o.prevs.data
        out = [('array lengths', BALL, And(Eq(o.prevs.len, N), Eq(o.count.len, n) if self.counts else TRUE)),
               ('list heads', BALL, Forall('Int', lambda k: And(Sel(cl, k) >= 0, Implies(Or(k < 0, k >= n), Eq(Sel(cl, k), I0)), Implies(And(I0 <= k, k < n), And(
                   Eq(Sel(hd, k), Ite(Sel(cl, k) > 0, sq(o, k, Sel(cl, k) - 1), M1)), Eq(Sel(o.count.data, k), Sel(cl, k)) if self.counts else TRUE))),
                   lambda k: [(Sel(hd, k),), (Sel(cl, k),)] + ([(Sel(o.count.data, k),)] if self.counts else []))),
               ('list members', BALL, Forall(['Int', 'Int'], lambda k, p: Implies(And(I0 <= p, p < Sel(cl, k)), And(Eq(Sel(own, sq(o, k, p)), k), Eq(Sel(pos, sq(o, k, p)), p))), lambda k, p: sq(o, k, p))),
               ('listed entries', BALL, Forall('Int', lambda e: And(Sel(own, e) >= -1, Implies(Sel(own, e) >= 0, And(Sel(own, e) < n, I0 <= Sel(pos, e), Sel(pos, e) < Sel(cl, Sel(own, e)),
                   Eq(sq(o, Sel(own, e), Sel(pos, e)), e), I0 <= e, e < N))), lambda e: Sel(own, e))),
               ('links forward', BALL, Forall('Int', lambda e: Implies(And(I0 <= e, e < N), Eq(Sel(nx, e), Ite(And(Sel(own, e) >= 0, Sel(pos, e) > 0), sq(o, Sel(own, e), Sel(pos, e) - 1), M1))), lambda e: Sel(nx, e))),
               ('links backward', BALL, Forall('Int', lambda e: Implies(And(Sel(own, e) >= 0, Sel(pos, e) + 1 < Sel(cl, Sel(own, e))), Eq(Sel(pv, e), sq(o, Sel(own, e), Sel(pos, e) + 1))), lambda e: Sel(pv, e))),
               ('number of entries', BALL, And(Eq(Sel(o.ps, I0), I0),
                    Forall('Int', lambda h: Implies(h >= 0, Eq(Sel(o.ps, h + 1), Sel(o.ps, h) + Sel(cl, h))), lambda h: Sel(cl, h)),
                    Forall('Int', lambda h: Implies(h >= n, Eq(Sel(o.ps, h), Sel(o.ps, n))), lambda h: Sel(o.ps, h)),
                    Forall(['Int', 'Int'], lambda a, b: Implies(And(I0 <= a, a <= b), Sel(o.ps, a) <= Sel(o.ps, b)), lambda a, b: [(Sel(o.ps, a), Sel(o.ps, b))])))]
        return out


def total(o): return Sel(o.ps, o.heads.len)


SG = list(SideCls.ghosts)


class SideM(MethodSpec):
    tags = BALL; exc_tags = BALL; props = BALL
    @property
    def smods(self): return ('heads', 'nexts', 'prevs') + (('count',) if self.counts else ()) + tuple(SG)
    def __init__(self, counts, **kw):
        self.counts = counts; self.cspec = SideCls(counts); self.cls = self.cspec.cls
        self.variant = 'with counts' if counts else 'without counts'
        super().__init__(**kw)
        self.uses = contracts(TYPES['Int'])
    def applies(self, ex, st, m, args): return (st.heap[args[0].n].f['count'] is not NULL) == self.counts


class SideInit(SideM):
    name = '<init>'; inv_pre = False; pnames = ('initialCapacity', 'initialMappingCapacity', 'includeCounts')
    def world(self, ex, st, fr): st.assume(Eq(fr.args['includeCounts'].t, I1 if self.counts else I0))
    def raises(self, c): return {'java/lang/NegativeArraySizeException': Or(c.initialCapacity < 0, c.initialMappingCapacity < 0)}
    def witness(self, c): return side_zero(c)
    def ensures(self, c):
        k = Fresh('k', 'Int')
        return [('nothing listed', BALL, Eq(Sel(c.this.cl, k), I0)), ('counts exactly when asked for', B2, BoolC(isinstance(c.st.heap[c.fr.this.n].f['count'], Loc) == self.counts))]


def side_zero(c):
    z = lambda v: defarr(c, 'g', lambda x: v)
    return {'seq': defarr2(c, 'seq', lambda h, p: M1), 'cl': z(I0), 'own': z(M1), 'pos': z(I0), 'ps': z(I0)}


class SideCount(SideM):
    name = 'count'; pnames = ('key',)
    def raises(self, c): return {ISE: BoolC(not self.counts)}
    def ensures(self, c): return [('number of entries listed, 0 for keys never seen', B2, Eq(c.res, Sel(c.this.cl, c.key)))]


def inserted(o, p, k, e):
    n = Sel(p.cl, k)
    return [('one entry more', BALL, Eq(total(o), total(p) + 1)), ('the entry is listed under the key', BALL, And(
                Forall('Int', lambda x: Eq(Sel(o.own, x), Ite(Eq(x, e), k, Sel(p.own, x))), lambda x: [(Sel(o.own, x),), (Sel(p.own, x),)]),
                Forall('Int', lambda x: Eq(Sel(o.pos, x), Ite(Eq(x, e), n, Sel(p.pos, x))), lambda x: Sel(o.pos, x)))),
            ('one more for the key, other lists keep theirs', BALL, And(
                Forall('Int', lambda h: Eq(Sel(o.cl, h), Sel(p.cl, h) + Ite(Eq(h, k), I1, I0)), lambda h: Sel(o.cl, h)),
                Forall(['Int', 'Int'], lambda h, q: Implies(q < Sel(p.cl, h), Eq(sq(o, h, q), sq(p, h, q))), lambda h, q: sq(o, h, q))))]


def unlisted(o, p, k, e):
    p0 = Sel(p.pos, e)
    return [('one entry fewer', BALL, Eq(total(o), total(p) - 1)), ('the entry is no longer listed', BALL, Forall('Int', lambda x: Eq(Sel(o.own, x), Ite(Eq(x, e), M1, Sel(p.own, x))), lambda x: [(Sel(o.own, x),), (Sel(p.own, x),)])),
            ('one less for the key, the rest keep their order', BALL, And(
                Forall('Int', lambda h: Eq(Sel(o.cl, h), Sel(p.cl, h) - Ite(Eq(h, k), I1, I0)), lambda h: Sel(o.cl, h)),
                Forall(['Int', 'Int'], lambda h, q: Eq(sq(o, h, q), Ite(And(Eq(h, k), q >= p0), sq(p, h, q + 1), sq(p, h, q))), lambda h, q: sq(o, h, q))))]


class InsertEntry(SideM):
    name = 'insertEntry'; pnames = ('key', 'entry')
    @property
    def mods(self): return self.smods
    def requires(self, c):
        return [('key from 0 on', And(c.key >= 0, c.key < KMAX)), ('an entry not listed', And(c.entry >= 0, c.entry < KMAX, Sel(c.this.own, c.entry) < 0)),
                ('fewer than 2^31-1 entries', total(c.this) < 2**31 - 1)]
    def witness(self, c):
        o, k, e = c.old.this, c.key, c.entry; n = Sel(o.cl, k)
        return {'seq': defarr2(c, 'seq', lambda h, p: Ite(And(Eq(h, k), Eq(p, n)), e, sq(o, h, p))),
                'cl': defarr(c, 'cl', lambda h: Ite(Eq(h, k), n + 1, Sel(o.cl, h))),
                'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), k, Sel(o.own, x))),
                'pos': defarr(c, 'pos', lambda x: Ite(Eq(x, e), n, Sel(o.pos, x))),
                'ps': defarr(c, 'ps', lambda h: Sel(o.ps, h) + Ite(h > k, I1, I0))}
    def ensures(self, c): return inserted(c.this, c.old.this, c.key, c.entry)


class RemoveEntry(SideM):
    name = 'removeEntry'; pnames = ('key', 'entry')
    @property
    def mods(self): return self.smods
    def requires(self, c): return [('an entry listed under the key', And(c.key >= 0, Eq(Sel(c.this.own, c.entry), c.key)))]
    def witness(self, c):
        o, k, e = c.old.this, c.key, c.entry; p0 = Sel(o.pos, e)
        return {'seq': defarr2(c, 'seq', lambda h, p: Ite(And(Eq(h, k), p >= p0), sq(o, h, p + 1), sq(o, h, p))),
                'cl': defarr(c, 'cl', lambda h: Ite(Eq(h, k), Sel(o.cl, h) - 1, Sel(o.cl, h))),
                'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), M1, Sel(o.own, x))),
                'pos': defarr(c, 'pos', lambda x: Ite(And(Eq(Sel(o.own, x), k), Sel(o.pos, x) > p0), Sel(o.pos, x) - 1, Sel(o.pos, x))),
                'ps': defarr(c, 'ps', lambda h: Sel(o.ps, h) - Ite(h > k, I1, I0))}
    def ensures(self, c): return unlisted(c.this, c.old.this, c.key, c.entry)


# ---------------------------------------------------------------- the relation
def eq_const(ex, st=None): return ex.getstatic(st if st is not None else ex_state(ex), P + 'types/LongType', 'EqImpl', 'L%stypes/LongType$Eq;' % P)


def lookup_lam(name, loc):
    return Lam(BI + 'CompactOneToMany$EntryLookupFunc', 5, (BI + 'CompactOneToMany', name, '(I)I'), [loc], None)


class RelCls(ClassSpec):
    def __init__(self, many, counts):
        self.many = many; self.counts = counts; self.set = HCls(L); self.side = SideCls(counts)
        super().__init__(BI + ('CompactManyToMany' if many else 'CompactOneToMany'))
    def make(self, ex, st):
        l = ex.newloc(); f = {}; me = Loc(l)
        st.heap[l] = Obj(self.cls, f)
        ms = self.set.make(ex, st); st.heap[ms.n].f['equalFunc'] = eq_const(ex, st)
        f['mappings'] = ms
        f['left'] = self.side.make(ex, st); f['leftMapping'] = mapping(ex, st, f['left'], lookup_lam('getRightAt', me))
        if self.many:
            f['right'] = self.side.make(ex, st); f['rightMapping'] = mapping(ex, st, f['right'], lookup_lam('getLeftAt', me))
        known = set(f)
        for x in ex.classes.all_fields(self.cls):
            if x.name not in known: f[x.name] = self.field(ex, st, x)
        return me
    def inv(self, o, ex):
        out = [('associations: ' + l, t, g) for l, t, g in self.set.inv(o.mappings, ex)]
        m = o.mappings
        out.append(('packed pairs', BALL, And(Eq(m.equalFunc, ex.term(eq_const(ex))),
            Forall('Int', lambda e: Implies(Sel(m.own, e) >= 0, ex.dom.inrange(Sel(m.keys.data, e), 'J')), lambda e: Sel(m.keys.data, e)))))
        for n, half in self.halves(): out += self.linked(o, ex, n, half)
        return out
    def halves(self): return [('left', hi)] + ([('right', lo)] if self.many else [])
    def linked(self, o, ex, n, half):
        s, m = getattr(o, n), o.mappings
        return [('%s: %s' % (n, l), t, g) for l, t, g in self.side.inv(s, ex)] + \
            [('%s: as many entries as associations' % n, BALL, Eq(total(s), m.size)), ('%s: exactly the live associations are listed, under their key' % n, BALL, Forall('Int', lambda e: And(
                Eq(Sel(s.own, e) >= 0, Sel(m.own, e) >= 0), Implies(Sel(m.own, e) >= 0, Eq(Sel(s.own, e), half(Sel(m.keys.data, e))))), lambda e: [(Sel(s.own, e),), (Sel(m.own, e),)]))]


def ex_state(ex):
    if getattr(ex, '_bst', None) is None: ex._bst = State()
    return ex._bst


def mapping(ex, st, side, lam):
    def obj(cls, **f):
        l = ex.newloc(); st.heap[l] = Obj(cls, f); return Loc(l)
    i = lambda n: make_val(ex, st, n, 'I')
    en = obj(BI + 'Side$EntryIterator', **{OUTER: side, 'key': i('key'), 'entry': i('entry')})
    va = obj(BI + 'Side$ValueIterator', **{OUTER: side, 'key': i('key'), 'entry': i('entry'), 'lookupFunc': lam})
    return obj(BI + 'Mapping', side=side, entryIterator=en, valueIterator=va, key=i('key'))


class RelM(MethodSpec):
    tags = BALL; exc_tags = BALL; props = BALL
    elems = frozenset(); side = frozenset()
    def __init__(self, many, counts, **kw):
        self.many = many; self.counts = counts; self.cspec = RelCls(many, counts); self.cls = self.cspec.cls
        self.variant = 'with counts' if counts else 'without counts'
        super().__init__(**kw)
        self.uses = PK + tuple(k(L) for k in (H.Lookup, H.Contains, H.GetKeyAt, H.Size, H.IsEmpty, H.RemoveReserve, H.FreeReserved, AddPair)) + \
            (RemoveAtLive(L), EachEntry(L)) + tuple(k(counts) for k in (InsertEntry, RemoveEntry, SideCount))
    def key(self): return '%s.%s for %s' % (self.cls.split('/')[-1], self.name, self.variant)
    @property
    def rmods(self):
        sides = ['left'] + (['right'] if self.many else [])
        return tuple('mappings.%s' % f for f in H.HM.hmods if f != 'values' and f not in GH) + tuple('mappings.$%s' % g for g in GH) + \
            tuple('%s.%s' % (s, f) for s in sides for f in ('heads', 'nexts', 'prevs') + (('count',) if self.counts else ()) + tuple('$' + g for g in SG))
    def axioms(self, c):
        e = c.ex.term(eq_const(c.ex))
        return pack_facts() + [Forall('Int', lambda k: Eq(App('uncls', 'Int', e, cls_of(e, k)), k), lambda k: cls_of(e, k))]


def entry_of(o, l, r):
    """entry of the association of l and r, or -1"""
    return Sel(o.mappings.em, cls_of(o.mappings.equalFunc, pack(l, r)))


def live(o, e): return Sel(o.mappings.own, e) >= 0
def pair_at(o, e): return Sel(o.mappings.keys.data, e)


def others(o, p, l, r):
    """every other association is present exactly if it was, at the same entry"""
    a, b = Fresh('l', 'Int'), Fresh('r', 'Int')
    inr = lambda t: And(IntC(-2**31) <= t, t < IntC(2**31))
    return [('every other association stays as it was', B1, Implies(And(inr(a), inr(b), Or(Ne(a, l), Ne(b, r))), Eq(entry_of(o, a, b), entry_of(p, a, b))))]


def entries_read(o):
    """getLeftAt and getRightAt of the entry of any association return it"""
    a, b = Fresh('l', 'Int'), Fresh('r', 'Int')
    inr = lambda t: And(IntC(-2**31) <= t, t < IntC(2**31))
    e = entry_of(o, a, b)
    return [('the entry of an association holds its pair', B1, Implies(And(inr(a), inr(b), e >= 0), And(Eq(hi(pair_at(o, e)), a), Eq(lo(pair_at(o, e)), b))))]


def same_relation(o, p, many):
    t = [Eq(getattr(o.mappings, g), getattr(p.mappings, g)) for g in GH] + [Eq(o.mappings.size, p.mappings.size)]
    for n in ('left', 'right')[:2 if many else 1]: t += [Eq(getattr(getattr(o, n), g), getattr(getattr(p, n), g)) for g in SG]
    return And(*t)


class AddPair(H.Add):
    """add on the set of packed pairs, as its callers here see it"""
    desc = '(J)I'
    def __init__(self, kt): super().__init__(kt)


class RemoveAtLive(H.RemoveAt):
    """removeAt of a live entry"""
    def requires(self, c): return [('a live entry', Sel(c.this.own, c.entry) >= 0)]
    def raises(self, c): return {}


class EachEntry(H.ForEach):
    """forEachEntry with a consumer that leaves the collection alone: every live entry is shown once"""
    name = 'forEachEntry'; pnames = ('consumer',); mods = (); tags = H.H05 + BALL; exc_tags = tags
    def callback(self, ex, st, fr, fn, name, args): return super().callback(ex, st, fr, fn, name, args)[:1]
    def apply(self, ex, st, m, args):
        st.g['visited'] = args[1]; st.g['seen'] = Fresh('seen', ArrS('Int', 'Bool'))
        return super().apply(ex, st, m, args)


def key_ok(k): return And(k >= 0, k < KMAX)


class RelInit(RelM):
    name = '<init>'; inv_pre = False
    @property
    def pnames(self): return () if self.desc == '()V' else (('initialLefts', 'initialRights') if self.many else ('initialLefts',)) + ('initialMappingCapacity', 'includeCounts')
    def world(self, ex, st, fr):
        if fr.args: st.assume(Eq(fr.args['includeCounts'].t, I1 if self.counts else I0))
    def __init__(self, many, counts, **kw):
        super().__init__(many, counts, **kw)
        self.uses = contracts(TYPES['Int']) + contracts(L) + nums.USES
    def raises(self, c):
        if self.desc == '()V': return {}
        bad = Or(c.initialMappingCapacity <= 0, c.initialMappingCapacity > CAP)
        neg = Or(c.initialLefts < 0, c.initialRights < 0) if self.many else c.initialLefts < 0
        return {'java/lang/IllegalArgumentException': bad, 'java/lang/NegativeArraySizeException': And(Not(bad), neg)}
    def witness(self, c):
        f = c.st.heap[c.fr.this.n].f; w = {}
        for n in ('left', 'right')[:2 if self.many else 1]:
            if isinstance(f.get(n), Loc): w.update({(f[n].n, g): t for g, t in side_zero(c).items()})
        if isinstance(f.get('mappings'), Loc): w.update({(f['mappings'].n, g): t for g, t in H.Init.witness(self, c).items()})
        return w
    def ensures(self, c):
        a, b = Fresh('l', 'Int'), Fresh('r', 'Int'); o = c.this; st = c.st
        f = st.heap[c.fr.this.n].f
        out = [('no associations', B1, And(Eq(o.mappings.size, I0), Eq(entry_of(o, a, b), M1))),
               ('counts exactly when asked for', B2, BoolC(all(isinstance(st.heap[f[n].n].f['count'], Loc) == self.counts for n in ('left', 'right')[:2 if self.many else 1])))]
        for n, fn in (('left', 'getRightAt'), ('right', 'getLeftAt'))[:2 if self.many else 1]:
            ok = well_formed(st, f[n], f[n + 'Mapping'], lookup_lam(fn, c.fr.this))
            out.append(('%s: its mapping enumerates this side, with values of the other half' % n, B2, BoolC(ok)))
        return out


def well_formed(st, side, mp, lam):
    """the mapping object is over this side, its value iterator looks values up with lam"""
    from ..symex import same
    try:
        m = st.heap[mp.n]; e, v = st.heap[m.f['entryIterator'].n], st.heap[m.f['valueIterator'].n]
        return m.cls == BI + 'Mapping' and same(m.f['side'], side) and same(e.f[OUTER], side) and same(v.f[OUTER], side) and same(v.f['lookupFunc'], lam) and \
            e.cls == BI + 'Side$EntryIterator' and v.cls == BI + 'Side$ValueIterator'
    except (KeyError, AttributeError): return False


class RelSize(RelM):
    name = 'size'
    def ensures(self, c): return [('number of associations', B1, Eq(c.res, c.this.mappings.size))]


class RelPut(RelM):
    name = 'put'; pnames = ('leftKey', 'rightKey')
    @property
    def mods(self): return self.rmods
    def requires(self, c):
        m = c.this.mappings
        return [('keys from 0 on', And(key_ok(c.leftKey), key_ok(c.rightKey) if self.many else TRUE)),
                ('fewer than 2^29 entries handed out, or one to reuse', Or(m.nextUnusedEntry < CAP, m.fn > 0)), ('fewer than 2^31-1 associations', m.size < 2**31 - 1)]
    def ensures(self, c):
        o, p, l, r = c.this, c.old.this, c.leftKey, c.rightKey
        e0 = entry_of(p, l, r); new = e0 < 0
        x = Fresh('x', 'Int')
        return [('the association is present at the entry returned', B1, And(c.res >= 0, Eq(entry_of(o, l, r), c.res))),
                ('a present association keeps its entry', B1, Implies(Not(new), Eq(c.res, e0))),
                ('putting a present association changes nothing', BALL, Implies(Not(new), same_relation(o, p, self.many))),
                ('the entry was not in use', B1, Implies(new, Not(live(p, c.res)))),
                ('one association more', B1, Eq(o.mappings.size, p.mappings.size + Ite(new, I1, I0)))] + others(o, p, l, r) + entries_read(o)


class RelContains(RelM):
    name = 'contains'; pnames = ('leftKey', 'rightKey')
    def ensures(self, c): return [('exactly when present', B1, Eq(Eq(c.res, I1), entry_of(c.this, c.leftKey, c.rightKey) >= 0))]


class RelLookup(RelM):
    name = 'lookupEntry'; pnames = ('leftKey', 'rightKey')
    def ensures(self, c): return [('the entry of the association, or -1', B1, Eq(c.res, entry_of(c.this, c.leftKey, c.rightKey)))] + entries_read(c.this)


class RelGone(RelM):
    @property
    def mods(self): return self.rmods
    def gone(self, c, e, yes, freed):
        o, p = c.this, c.old.this; a = pair_at(p, e); l, r = hi(a), lo(a)
        x = Fresh('x', 'Int')
        out = [('the association is gone', B1, Implies(yes, Eq(entry_of(o, l, r), M1))),
               ('one association fewer', B1, Eq(o.mappings.size, p.mappings.size - Ite(yes, I1, I0))),
               ('the entry is %s' % ('available again' if freed else 'neither live nor available'), B1, Implies(yes, Eq(Sel(o.mappings.fidx, e) >= 0, BoolC(freed))))]
        out += [(n, t, Implies(yes, g)) for n, t, g in others(o, p, l, r)]
        if not freed: out.append(('a reserved entry keeps its pair', B1, Eq(pair_at(o, e), a)))
        return out + entries_read(o)


class RelRemove(RelGone):
    name = 'remove'; pnames = ('leftKey', 'rightKey')
    def ensures(self, c):
        o, p = c.this, c.old.this
        e = entry_of(p, c.leftKey, c.rightKey); yes = e >= 0
        return [('the entry of the association, or -1', B1, Eq(c.res, e)), ('removing an unknown association changes nothing', BALL, Implies(Not(yes), same_relation(o, p, self.many))),
                ('the association asked for is the one removed', B1, Implies(yes, And(Eq(hi(pair_at(p, e)), c.leftKey), Eq(lo(pair_at(p, e)), c.rightKey))))] + self.gone(c, e, yes, True)


class RelRemoveAt(RelGone):
    name = 'removeAt'; pnames = ('entry',)
    def requires(self, c): return [('a live entry', live(c.this, c.entry))]
    def ensures(self, c): return [('returns the entry', B1, Eq(c.res, c.entry))] + self.gone(c, c.entry, TRUE, True)


class RelReserve(RelGone):
    name = 'removeAtAndReserve'; pnames = ('entry',)
    def requires(self, c): return [('a live entry', live(c.this, c.entry))]
    def ensures(self, c): return self.gone(c, c.entry, TRUE, False)


class RelFree(RelM):
    name = 'freeReservedEntry'; pnames = ('entry',)
    @property
    def mods(self): return tuple(x for x in self.rmods if x.startswith('mappings'))
    def requires(self, c):
        m = c.this.mappings
        return [('a reserved entry', And(c.entry >= 0, c.entry < m.nextUnusedEntry, Sel(m.own, c.entry) < 0, Sel(m.fidx, c.entry) < 0))]
    def ensures(self, c):
        o, p = c.this, c.old.this; k = Fresh('k', 'Int')
        return [('the associations stay', B1, And(Eq(o.mappings.size, p.mappings.size), Eq(Sel(o.mappings.em, k), Sel(p.mappings.em, k)))),
                ('the entry is available again', B1, Sel(o.mappings.fidx, c.entry) >= 0)] + entries_read(o)


class RelAt(RelM):
    pnames = ('entry',)
    def raises(self, c): return {AIOOBE: Or(c.entry < 0, c.entry >= c.this.mappings.keys.len)}
    def ensures(self, c):
        return [('the %s half of the pair at the entry' % ('left' if self.name == 'getLeftAt' else 'right'), B1,
                 Eq(c.res, (hi if self.name == 'getLeftAt' else lo)(pair_at(c.this, c.entry))))] + entries_read(c.this)


class RelEach(RelM):
    name = 'forEachEntry'; pnames = ('consumer',)
    def ensures(self, c):
        v = c.st.g.get('visited')
        return [('the consumer is shown every live association', BALL, BoolC(v is not None and v is c.fr.args['consumer']))]


class RelWith(RelM):
    """withLeft, withRight"""
    pnames = ('leftKey',)
    @property
    def side_(self): return 'left' if self.name == 'withLeft' else 'right'
    @property
    def mods(self): return (self.side_ + 'Mapping.key',)
    def ensures(self, c):
        f = c.st.heap[c.fr.this.n].f; r = c.resv
        ok = isinstance(r, Loc) and r.n == f[self.side_ + 'Mapping'].n
        return [('the mapping of this side, for this key', B2, And(BoolC(ok), Eq(getattr(c.this, self.side_ + 'Mapping').key, c.leftKey)))]


# ---------------------------------------------------------------- enumeration of one side
class MapCls(ClassSpec):
    """the mapping object of one side of an arbitrary relation"""
    def __init__(self, cls, many, counts, right):
        super().__init__(cls)
        self.rel = RelCls(many, counts); self.right = right; self.sn = 'right' if right else 'left'
        self.half = lo if right else hi; self.other = hi if right else lo
    def make(self, ex, st):
        r = self.rel.make(ex, st); f = st.heap[r.n].f; m = f[self.sn + 'Mapping']; mf = st.heap[m.n].f
        t = {'Mapping': m, 'Side$EntryIterator': mf['entryIterator'], 'Side$ValueIterator': mf['valueIterator']}[self.cls.split('/')[-1]]
        st.heap[t.n].f['rel'] = r; st.heap[t.n].f['$ix'] = Fresh('ix', 'Int')
        return t
    def inv(self, o, ex): return self.rel.inv(o.rel, ex)
    def side(self, o): return getattr(o.rel, self.sn)


class MapM(MethodSpec):
    tags = B2; exc_tags = B2; props = B2; values = False
    def __init__(self, many, counts, right, cls, **kw):
        self.many = many; self.counts = counts; self.right = right
        self.cspec = MapCls(BI + cls, many, counts, right); self.cls = self.cspec.cls
        self.variant = ('the right side' if right else 'the left side' if many else 'one-to-many') + (', with counts' if counts else ', without counts')
        super().__init__(**kw)
        self.uses = PK + (H.GetKeyAt(L), SideCount(counts))
    def axioms(self, c): return RelM.axioms(self, c)
    def side(self, c): return self.cspec.side(c.this)
    def shown(self, c, i):
        """what enumerating shows for the i-th entry from the head of the key's list"""
        s = self.side(c); k = self.mkey(c); e = sq(s, k, Sel(s.cl, k) - 1 - i)
        return self.cspec.other(pair_at(c.this.rel, e)) if self.values else e
    def mkey(self, c): return c.this.key


class MapCount(MapM):
    name = 'count'
    def raises(self, c): return {ISE: BoolC(not self.counts)}
    def ensures(self, c): return [('number of associations of the key', B2, Eq(c.res, Sel(self.side(c).cl, c.this.key)))]


class MapEach(MapM):
    """the associations of a key are shown from the head of its list on, each once: its list holds exactly them (invariant)"""
    pnames = ('consumer',)
    @property
    def mods(self): return ('valueIterator.key', 'valueIterator.entry') if self.values else ('entryIterator.key', 'entryIterator.entry')
    def world(self, ex, st, fr): st.g['n'] = I0
    def callback(self, ex, st, fr, fn, name, args):
        c = C(fr, st); n = st.g['n']
        s = self.side(c); k = self.mkey(c)
        ex.oblige(st, 'no more than the associations of the key', n < Sel(s.cl, k), 'visit')
        ex.oblige(st, 'shows the next association', Eq(ex.term(args[0]), self.shown(c, n)), 'visit')
        st.g['n'] = n + 1
        return [(st, 'ret', None)]
    def ensures(self, c): return [('all associations of the key are shown', B2, Eq(c.g['n'], Sel(self.side(c).cl, c.this.key)))]
    @property
    def loops(self):
        def inv(c, L_):
            s = self.side(c); k = c.this.key; n = c.g['n']; it = c.this.valueIterator if self.values else c.this.entryIterator
            q = Sel(s.cl, k) - 1 - n
            return [('position', B2, And(n >= 0, n <= Sel(s.cl, k), Eq(it.entry, Ite(q >= 0, sq(s, k, q), M1))))]
        return [LoopSpec('enumerate', 'forEach', vars={}, inv=inv, variant=lambda c, L_: Sel(self.side(c).cl, c.this.key) - c.g['n'])]


class MapIterator(MapM):
    """entryIterator, valueIterator: everything is to come"""
    @property
    def mods(self): return (self.name + '.key', self.name + '.entry')
    def ensures(self, c):
        f = c.st.heap[c.fr.this.n].f; r = c.resv
        ok = isinstance(r, Loc) and r.n == f[self.name].n
        it = getattr(c.this, self.name); s = self.side(c)
        return [('the iterator of this side', B2, BoolC(ok)), ('at the head of the list of the key', B2, it_at(it, s, c.this.key, Sel(s.cl, c.this.key) - 1))]


def it_at(it, s, k, ix):
    """the iterator shows the entry at position ix of the list of k next (nothing when ix is -1)"""
    return And(Eq(it.key, k), ix >= -1, ix < Sel(s.cl, k), Eq(it.entry, Ite(ix >= 0, sq(s, k, ix), M1)))


class ItM(MapM):
    def requires(self, c): return [('reset since the last change', it_at(c.this, self.side(c), c.this.key, c.this.ix))]


class ItHasNext(ItM):
    name = 'hasNext'
    def ensures(self, c): return [('exactly until everything was shown', B2, Eq(Eq(c.res, I1), c.this.ix >= 0))]


class ItNext(ItM):
    name = 'next'; mods = ('entry', 'ix')
    def requires(self, c): return super().requires(c) + [('something is to come', c.this.ix >= 0)]
    def witness(self, c): return {'ix': c.old.this.ix - 1}
    def ensures(self, c):
        s = self.side(c); q = c.old.this; e = sq(s, q.key, q.ix)
        return [('shows the association at the position', B2, Eq(c.res, self.cspec.other(pair_at(c.this.rel, e)) if self.values else e)),
                ('moves on by one', B2, And(it_at(c.this, s, q.key, c.this.ix), Eq(c.this.ix, q.ix - 1)))]


class ItReset(MapM):
    mods = ('entry', 'key', 'ix'); name = 'reset'
    @property
    def pnames(self): return ('key',) if self.desc == '(I)V' else ()
    def witness(self, c): return {'ix': Sel(self.side(c).cl, c.this.key) - 1}
    def ensures(self, c):
        k = c.key if self.desc == '(I)V' else c.old.this.key
        return [('at the head of the list of the key', B2, it_at(c.this, self.side(c), k, Sel(self.side(c).cl, k) - 1))]


def specs(types):
    out = list(PK) + [PackFacts(), LongEquality()]
    for n in (True, False):
        out += [k(n) for k in (SideInit, SideCount, InsertEntry, RemoveEntry)]
        for many in (False, True):
            ctor = '(III%sZ)V'.replace('III', 'II') % ('I' if many else '')
            out += [RelInit(many, n, desc=ctor)] + ([RelInit(many, n, desc='()V')] if n else [])
            out += [k(many, n) for k in (RelSize, RelPut, RelContains, RelLookup, RelRemove, RelRemoveAt, RelReserve, RelFree, RelEach)]
            out += [RelAt(many, n, name=x) for x in ('getLeftAt', 'getRightAt')] + [RelWith(many, n, name=x) for x in ('withLeft', 'withRight')[:2 if many else 1]]
            for right in (False, True)[:2 if many else 1]:
                out.append(MapCount(many, n, right, 'Mapping'))
                for v in (False, True):
                    it = 'Side$ValueIterator' if v else 'Side$EntryIterator'
                    out += [MapEach(many, n, right, 'Mapping', values=v, name='forEachValue' if v else 'forEachEntry'),
                            MapIterator(many, n, right, 'Mapping', values=v, name='valueIterator' if v else 'entryIterator'),
                            ItHasNext(many, n, right, it, values=v), ItNext(many, n, right, it, values=v)] + [ItReset(many, n, right, it, values=v, desc=d) for d in ('()V', '(I)V')]
    return out
