"""H01-H07, G01: indexed sets and maps.

Ghost state of a collection: ct[h][p] the entries chained at bucket h (position 0 is the end of the chain), cl[h] their number;
own[e], pos[e] bucket and position of a live entry (own = -1 otherwise); fl[0..fn) the free entries, fidx[e] the index of e there or -1;
em[k] the live entry of key class k or -1 (two keys are equal under the equality in use exactly when they have the same class);
ps[h] the number of live entries in buckets below h."""
from ..contract import *
from .types import *
from .arrays import contracts
from . import nums, arith

HALL = ('H01', 'H02', 'H03', 'H04', 'H05', 'H06', 'H07', 'G01')
HFREE = ('H01', 'H02', 'H03', 'H04', 'H06', 'H07', 'G01')
H01, H02, H03, H04, H05, H06, H07, G1 = [(t,) for t in HALL]
H12 = ('H01', 'H02', 'H07')
CAP = 2**29
AIOOBE = 'java/lang/ArrayIndexOutOfBoundsException'
KNF = P + 'exception/KeyNotFoundException'
AI = ArrS('Int', 'Int')
I0, I1, M1 = IntC(0), IntC(1), IntC(-1)


def cls_of(eqf, k): return App('cls_%s' % k.sort, 'Int', eqf, k)
def bk(o, k, H=None): return App('bk', 'Int', o.hashFunc, o.equalFunc, cls_of(o.equalFunc, k), H if H is not None else o.heads.len)
def c_of(o, e): return cls_of(o.equalFunc, Sel(o.keys.data, e))
def ct(o, h, p): return Sel(Sel(o.ct, h), p)
def nonnullf(t): return TRUE if t.op == 'const' and t.data.startswith('fn!') else Ne(t, NULLF)


def defarr(c, name, f, rng='Int'):
    a = Fresh(name, ArrS('Int', rng))
    c.st.assume(Forall('Int', lambda x: Eq(Sel(a, x), f(x)), lambda x: Sel(a, x)))
    return a


def defarr2(c, name, f):
    a = Fresh(name, ArrS('Int', AI))
    c.st.assume(Forall(['Int', 'Int'], lambda x, y: Eq(Sel(Sel(a, x), y), f(x, y)), lambda x, y: Sel(Sel(a, x), y)))
    return a


# ---------------------------------------------------------------- invariant
def numeric(o, ex):
    N = o.nexts.len
    out = [('capacity', HALL, And(Eq(N, o.capacity), Eq(o.keys.len, o.capacity), Eq(o.values.len, o.capacity) if o.has('values') else TRUE,
                                  o.capacity >= 1, o.capacity <= CAP, nums.pow2(o.capacity), o.heads.len >= 1, o.heads.len <= o.capacity)),
           ('growth threshold', HALL, And(o.capThreshold >= 0, o.capThreshold <= o.capacity)),
           ('functions are set', HALL, And(nonnullf(o.hashFunc), nonnullf(o.equalFunc)))]
    lf = ex.dom.toreal(o.loadFactor)
    out.append(('load factor', HALL, And(RealC(0) < lf, lf <= RealC(1))))
    return out


def chain(o, bound):
    """the buckets hold exactly the entries with own >= 0, all below bound"""
    H, cl, own, pos, ps = o.heads.len, o.cl, o.own, o.pos, o.ps
    hd, nx = o.heads.data, o.nexts.data
    return [
        ('bucket heads', HALL, Forall('Int', lambda h: Implies(And(I0 <= h, h < H), And(Sel(cl, h) >= 0, Implies(Eq(Sel(cl, h), I0), Sel(hd, h) < 0),
            Implies(Sel(cl, h) > 0, And(Eq(Sel(hd, h), ct(o, h, Sel(cl, h) - 1)), h <= o.maxHead)))), lambda h: [Sel(hd, h), Sel(cl, h)])),
        ('chain members', HALL, Forall(['Int', 'Int'], lambda h, p: Implies(And(I0 <= h, h < H, I0 <= p, p < Sel(cl, h)),
            And(Eq(Sel(own, ct(o, h, p)), h), Eq(Sel(pos, ct(o, h, p)), p))), lambda h, p: ct(o, h, p))),
        ('live entries are in the chain of their key', HALL, Forall('Int', lambda e: And(Sel(own, e) >= -1, Implies(Sel(own, e) >= 0, And(
            Sel(own, e) < H, I0 <= Sel(pos, e), Sel(pos, e) < Sel(cl, Sel(own, e)), Eq(ct(o, Sel(own, e), Sel(pos, e)), e), I0 <= e, e < bound,
            Eq(Sel(own, e), bk(o, Sel(o.keys.data, e)))))), lambda e: Sel(own, e))),
        ('links', HALL, Forall('Int', lambda e: Implies(Sel(own, e) >= 0, Eq(Sel(nx, e), Ite(Sel(pos, e) > 0, ct(o, Sel(own, e), Sel(pos, e) - 1), -Sel(own, e) - 1))),
                               lambda e: Sel(nx, e))),
        ('counts', HALL, And(Eq(Sel(ps, I0), I0), o.maxHead >= 0, o.maxHead < H,
            Forall('Int', lambda h: Implies(And(I0 <= h, h < H), Eq(Sel(ps, h + 1), Sel(ps, h) + Sel(cl, h))), lambda h: Sel(cl, h)),
            Forall('Int', lambda h: Implies(And(o.maxHead < h, h <= H), Eq(Sel(ps, h), Sel(ps, H))), lambda h: Sel(ps, h)),
            Forall(['Int', 'Int'], lambda a, b: Implies(And(I0 <= a, a <= b, b <= H), Sel(ps, a) <= Sel(ps, b)), lambda a, b: [(Sel(ps, a), Sel(ps, b))]))),
    ]


class HCls(ClassSpec):
    ghosts = {'ct': ArrS('Int', AI), 'cl': AI, 'own': AI, 'pos': AI, 'fl': AI, 'fn': 'Int', 'fidx': AI, 'em': AI, 'ps': AI}
    def __init__(self, kt, vt=None):
        self.kt = kt; self.vt = vt
        super().__init__(P + 'hash/' + ('%sIndexedSet' % kt.name if vt is None else '%s%sIndexedMap' % (kt.name, vt.name)))
    def field(self, ex, st, x):
        if x.name == 'loadFactor' and ex.mode == 'int': return V('D', Fresh('loadFactor', 'Real'))
        return super().field(ex, st, x)
    def inv(self, o, ex):
        N, H, U = o.nexts.len, o.heads.len, o.nextUnusedEntry
        own, fidx, fl, fn, em, nx = o.own, o.fidx, o.fl, o.fn, o.em, o.nexts.data
        out = numeric(o, ex) + chain(o, U)
        out += [
            ('entries handed out fit', HALL, And(U >= 0, U <= N, Implies(Eq(U, I0), Eq(o.size, I0)))),
            ('size is the number of live entries', HALL, Eq(o.size, Sel(o.ps, H))),
            ('live entry of each present key', HALL, And(
                Forall('Int', lambda e: Implies(Sel(own, e) >= 0, Eq(Sel(em, c_of(o, e)), e)), lambda e: Sel(own, e)),
                Forall('Int', lambda k: And(Sel(em, k) >= -1, Implies(Sel(em, k) >= 0, And(Sel(own, Sel(em, k)) >= 0, Eq(c_of(o, Sel(em, k)), k)))), lambda k: Sel(em, k)))),
            ('free list', HFREE, And(fn >= 0, Eq(o.freeList, Ite(fn > 0, Sel(fl, fn - 1), M1)),
                Forall('Int', lambda i: Implies(And(I0 <= i, i < fn), Eq(Sel(fidx, Sel(fl, i)), i)), lambda i: Sel(fl, i)),
                Forall('Int', lambda e: And(Sel(fidx, e) >= -1, Implies(Sel(fidx, e) >= 0, And(Sel(fidx, e) <= fn, Ne(Sel(fidx, e), fn), Eq(Sel(fl, Sel(fidx, e)), e), Sel(own, e) < 0, I0 <= e, e < U))), lambda e: Sel(fidx, e)),
                Forall('Int', lambda e: Implies(Sel(fidx, e) >= 0, Eq(Sel(nx, e), Ite(Sel(fidx, e) > 0, Sel(fl, Sel(fidx, e) - 1), M1))), lambda e: Sel(nx, e)))),
            ('links of entries neither live nor free', HFREE, Forall('Int', lambda e: Implies(And(Sel(own, e) < 0, Sel(fidx, e) < 0, I0 <= e, e < N),
                And(Sel(nx, e) < 0, -Sel(nx, e) - 1 < H)), lambda e: Sel(nx, e))),
            ('released entries read as the default key', G1, Forall('Int', lambda e: Implies(And(I0 <= e, e < N, Sel(own, e) < 0, Or(Sel(fidx, e) >= 0, e >= U)),
                Eq(Sel(o.keys.data, e), self.kt.default(ex))), lambda e: Sel(o.keys.data, e))),
        ]
        if self.vt is not None:
            out.append(('released entries read as the default value', G1, Forall('Int', lambda e: Implies(And(I0 <= e, e < N, Sel(own, e) < 0, Or(Sel(fidx, e) >= 0, e >= U)),
                Eq(Sel(o.values.data, e), self.vt.default(ex))), lambda e: Sel(o.values.data, e))))
        return out


# ---------------------------------------------------------------- ghost updates
def push(c, o, head, e):
    """entry e becomes the first of the chain of bucket head"""
    n = Sel(o.cl, head)
    return {'ct': defarr2(c, 'ct', lambda h, p: Ite(And(Eq(h, head), Eq(p, n)), e, ct(o, h, p))),
            'cl': defarr(c, 'cl', lambda h: Ite(Eq(h, head), n + 1, Sel(o.cl, h))),
            'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), head, Sel(o.own, x))),
            'pos': defarr(c, 'pos', lambda x: Ite(Eq(x, e), n, Sel(o.pos, x))),
            'ps': defarr(c, 'ps', lambda h: Sel(o.ps, h) + Ite(h > head, I1, I0))}


def pull(c, o, e):
    """entry e leaves its chain"""
    hd, p0 = Sel(o.own, e), Sel(o.pos, e)
    k0 = c_of(o, e)
    return {'ct': defarr2(c, 'ct', lambda h, p: Ite(And(Eq(h, hd), p >= p0), ct(o, h, p + 1), ct(o, h, p))),
            'cl': defarr(c, 'cl', lambda h: Ite(Eq(h, hd), Sel(o.cl, h) - 1, Sel(o.cl, h))),
            'own': defarr(c, 'own', lambda x: Ite(Eq(x, e), M1, Sel(o.own, x))),
            'pos': defarr(c, 'pos', lambda x: Ite(And(Eq(Sel(o.own, x), hd), Sel(o.pos, x) > p0), Sel(o.pos, x) - 1, Sel(o.pos, x))),
            'ps': defarr(c, 'ps', lambda h: Sel(o.ps, h) - Ite(h > hd, I1, I0)),
            'em': defarr(c, 'em', lambda k: Ite(Eq(k, k0), M1, Sel(o.em, k)))}


def free_push(c, o, e):
    return {'fl': defarr(c, 'fl', lambda i: Ite(Eq(i, o.fn), e, Sel(o.fl, i))), 'fn': o.fn + 1,
            'fidx': defarr(c, 'fidx', lambda x: Ite(Eq(x, e), o.fn, Sel(o.fidx, x)))}


GH = list(HCls.ghosts)


def unchanged(o, p, cl):
    """the collection is as before (the ghosts are functions of what the user can observe)"""
    t = And(*[Eq(getattr(o, g), getattr(p, g)) for g in GH])
    return [('nothing changes', HALL, And(t, Eq(o.size, p.size), Eq(o.nextUnusedEntry, p.nextUnusedEntry))),
            ] + [('%s stay' % a, ('H02', 'H04', 'H01', 'H07', 'G01'), Forall('Int', lambda x: Eq(Sel(getattr(o, a).data, x), Sel(getattr(p, a).data, x)), lambda x: Sel(getattr(o, a).data, x))) for a in cl.arrays] + [
            ('not counted as a change', H06, Eq(o.modificationCount, p.modificationCount))]


def advanced(a, b):
    """modification count a is 1 to 3 after b, modulo 2^32"""
    return Or(*[Or(Eq(a, b + k), Eq(a, b + k - 2**32)) for k in (1, 2, 3)])


def kept(o, p, cl, e):
    """keys and values of all entries other than e"""
    out = [('other keys stay', HALL, Forall('Int', lambda x: Implies(And(Ne(x, e), I0 <= x, x < p.keys.len), Eq(Sel(o.keys.data, x), Sel(p.keys.data, x))), lambda x: Sel(o.keys.data, x)))]
    if 'values' in cl.arrays:
        out.append(('other values stay', ('H04', 'H06', 'H07', 'G01'), Forall('Int', lambda x: Implies(And(Ne(x, e), I0 <= x, x < p.values.len), Eq(Sel(o.values.data, x), Sel(p.values.data, x))), lambda x: Sel(o.values.data, x))))
    return out


def removed(o, p, cl, e, freed):
    """live entry e of p is removed; freed: TRUE pushed on the free list, FALSE reserved"""
    hd, p0, k0 = Sel(p.own, e), Sel(p.pos, e), c_of(p, e)
    out = [('the key is gone, every other key stays present', HALL, Forall('Int', lambda k: Eq(Sel(o.em, k), Ite(Eq(k, k0), M1, Sel(p.em, k))), lambda k: Sel(o.em, k))),
           ('the other live entries stay', HALL, And(
               Forall('Int', lambda x: Eq(Sel(o.own, x), Ite(Eq(x, e), M1, Sel(p.own, x))), lambda x: [Sel(o.own, x), Sel(p.own, x)]),
               Forall('Int', lambda x: Eq(Sel(o.pos, x), Ite(And(Eq(Sel(p.own, x), hd), Sel(p.pos, x) > p0), Sel(p.pos, x) - 1, Sel(p.pos, x))), lambda x: Sel(o.pos, x)),
               Forall('Int', lambda h: Eq(Sel(o.cl, h), Sel(p.cl, h) - Ite(Eq(h, hd), I1, I0)), lambda h: Sel(o.cl, h)))),
           ('one key fewer', HALL, Eq(o.size, p.size - 1)),
           ('counted as a change', H06, advanced(o.modificationCount, p.modificationCount)),
           ('no new entries', HFREE, And(Eq(o.nextUnusedEntry, p.nextUnusedEntry))),
           ('free entries', HFREE, Forall('Int', lambda x: Eq(Sel(o.fidx, x) >= 0, Or(Sel(p.fidx, x) >= 0, And(freed, Eq(x, e)))), lambda x: Sel(o.fidx, x)))]
    out += kept(o, p, cl, e)
    for a in cl.arrays:
        out.append(('a reserved entry keeps its %s' % a[:-1], HFREE, Implies(Not(freed), Eq(Sel(getattr(o, a).data, e), Sel(getattr(p, a).data, e)))))
    return out


# ---------------------------------------------------------------- methods
class HM(MethodSpec):
    tags = HALL; exc_tags = HALL; props = HALL; pnames = None
    elems = frozenset(['keys', 'key', 'values', 'value', 'defaultValue']); side = frozenset(['values', 'value', 'values_len', 'defaultValue'])
    hmods = ('heads', 'nexts', 'keys', 'values', 'size', 'freeList', 'nextUnusedEntry', 'modificationCount', 'maxHead', 'capacity', 'capThreshold') + tuple(GH)
    def __init__(self, kt, vt=None, **kw):
        self.kt = kt; self.vt = vt; self.cspec = HCls(kt, vt); self.cls = self.cspec.cls
        self.variant = self.cls.split('/')[-1]
        self.arrays = ('keys',) if vt is None else ('keys', 'values')
        super().__init__(**kw)
        self.uses = contracts(TYPES['Int']) + contracts(kt) + (contracts(vt) if vt is not None else ()) + nums.USES + tuple(k(kt, vt) for k in self.calls)
    calls = ()
    def key(self): return '%s.%s%s' % (self.variant, self.name, self.desc[:self.desc.index(')') + 1] if self.desc else '')
    def ctc(self, d): return d
    def kd(self): return self.kt.d
    def k(self, c): return c.ex.term(c.argv('key'))
    def callback(self, ex, st, fr, fn, name, args):
        if name == 'areEqual':
            a, b = [cls_of(fn.t, ex.term(x)) for x in args]
            return [(st, 'ret', V('I', Ite(Eq(a, b), I1, I0), 'Z'))]
        return None


class ComputeHead(HM):
    """equal codes give the same bucket: decided over bit-vectors by running the method on two keys"""
    name = 'computeHead'; mode = 'bv'; pnames = ('key',); use_inv = False; tags = HALL
    def __init__(self, kt, vt=None, **kw):
        self.kt = kt; self.vt = None; self.cspec = HCls(kt, None); self.cls = P + 'hash/Base%sIndex' % kt.name
        self.variant = ''; self.arrays = ('keys',); self.uses = ()
        MethodSpec.__init__(self, **kw)
    def key(self): return '%s.%s' % (self.cls.split('/')[-1], self.name)
    def requires(self, c):
        if c.ex.mode == 'int': return [('at least one bucket', c.this.heads.len >= 1)]
        o = c.this
        return [('at least one bucket', BVC(1, 32) <= o.heads.len), ('hash function', Ne(o.hashFunc, NULLF)), ('equality', Ne(o.equalFunc, NULLF))]
    def world(self, ex, st, fr): st.g['code'] = Fresh('code', ('BV', 32))
    def callback(self, ex, st, fr, fn, name, args):
        if name == 'code': return [(st, 'ret', V('I', st.g['code'], 'I'))]
        return super().callback(ex, st, fr, fn, name, args)
    def ensures(self, c):
        ex = c.ex
        if ex.mode == 'int':
            o = c.this
            r = bk(o, self.k(c))
            return [('the bucket of the key', HALL, Eq(c.res, r)), ('bucket in range', HALL, And(I0 <= c.res, c.res < o.heads.len))]
        H = c.this.heads.len
        out = [('bucket in range', HALL, And(BVC(0, 32) <= c.res, c.res < H))]
        m = self.find(ex.classes)
        s2 = c.fr.pre.fork(); ex.quiet += 1
        n0 = len(s2.pc)
        k2 = make_val(ex, s2, 'otherkey', m.params[0])
        outs = ex.exec_method(s2, m, [c.fr.this, k2])
        ex.quiet -= 1
        for (s, kind, v) in outs:
            out.append(('equal codes select the same bucket', HALL, Implies(And(*s.pc[n0:]), Eq(v.t, c.res)) if kind == 'ret' else Implies(And(*s.pc[n0:]), FALSE)))
        return out


def look_inv(c, L, o, key):
    """walking the chain of key's bucket from its head; L.e is the entry looked at"""
    e, m = L.e, Sel(o.em, cls_of(o.equalFunc, key))
    return [('still ahead', HALL, And(Implies(e >= 0, And(Eq(Sel(o.own, e), bk(o, key)), Or(m < 0, Sel(o.pos, m) <= Sel(o.pos, e)))), Implies(e < 0, m < 0)))]


def look_var(o, e): return Ite(e >= 0, Sel(o.pos, e) + 1, I0)


class Lookup(HM):
    name = 'lookupEntry'; pnames = ('key',); calls = (ComputeHead,)
    def ensures(self, c):
        return [('the live entry of the key, or -1', HALL, Eq(c.res, Sel(c.this.em, cls_of(c.this.equalFunc, self.k(c)))))]
    @property
    def loops(self):
        return [LoopSpec('lookup', 'lookupEntry', vars={'e': 'I'}, walks=('e',), inv=lambda c, L: look_inv(c, L, c.this, self.k(c)), variant=lambda c, L: look_var(c.this, L.e))]


class Contains(HM):
    name = 'containsKey'; pnames = ('key',); calls = (Lookup,)
    def ensures(self, c): return [('exactly when present', ('H01', 'H02', 'H04', 'H07'), Eq(Eq(c.res, I1), Sel(c.this.em, cls_of(c.this.equalFunc, self.k(c))) >= 0))]


class GetKeyAt(HM):
    name = 'getKeyAt'; pnames = ('entry',)
    def raises(self, c): return {AIOOBE: Or(c.entry < 0, c.entry >= c.this.keys.len)}
    def ensures(self, c): return [('the key of the entry', HALL, Eq(c.ex.term(c.resv), Sel(c.this.keys.data, c.entry)))]


class Size(HM):
    name = 'size'
    def ensures(self, c): return [('number of live entries', HALL, Eq(c.res, c.this.size))]


class IsEmpty(HM):
    name = 'isEmpty'
    def ensures(self, c): return [('empty exactly without live entries', HALL, Eq(Eq(c.res, I1), Eq(c.this.size, I0)))]


class Init(HM):
    name = '<init>'; inv_pre = False
    @property
    def pnames(self): return ('initialCapacity', 'loadFactor') if 'D' in self.desc else ('initialCapacity',)
    def args_make(self, ex, st, n, d):
        return V('D', Fresh('loadFactor', 'Real')) if d == 'D' else super().args_make(ex, st, n, d)
    def raises(self, c):
        bad = Or(c.initialCapacity <= 0, c.initialCapacity > CAP)
        if 'D' in self.desc: bad = Or(bad, c.loadFactor <= RealC(0), c.loadFactor > RealC(1))
        return {'java/lang/IllegalArgumentException': bad}
    def witness(self, c):
        z = lambda v: defarr(c, 'g', lambda x: v)
        return {'ct': defarr2(c, 'ct', lambda h, p: M1), 'cl': z(I0), 'own': z(M1), 'pos': z(I0), 'fl': z(M1), 'fn': I0, 'fidx': z(M1), 'em': z(M1), 'ps': z(I0)}
    def ensures(self, c): return fresh_collection(c.this)


def fresh_collection(o):
    k = Fresh('k', 'Int')
    return [('empty', HALL, And(Eq(o.size, I0), Eq(Sel(o.em, k), M1))), ('no entry handed out', HFREE, And(Eq(o.nextUnusedEntry, I0), Eq(o.fn, I0)))]


class Rehash(HM):
    name = 'rehash'; sig = '()V'; use_inv = False; calls = (ComputeHead,)
    mods = ('heads', 'nexts', 'keys', 'values', 'capacity', 'capThreshold', 'maxHead', 'modificationCount', 'ct', 'cl', 'own', 'pos', 'ps')
    pure_fail = False
    def world(self, ex, st, fr): st.g['bucket'] = Fresh('bucket', 'Int')
    def requires(self, c):
        o = c.this
        return [(l, t) for l, g, t in numeric(o, c.ex) + chain(o, o.keys.len)] + [('room to grow', Or(o.capacity < CAP, o.capThreshold < CAP))]
    def ensures(self, c):
        o, p = c.this, c.old.this; ex = c.ex
        out = [(l, g, t) for l, g, t in numeric(o, ex) + chain(o, p.keys.len)]
        out += [('doubles below the maximum', HALL, And(Implies(p.capacity < CAP, Eq(o.capacity, p.capacity + p.capacity)), o.capacity >= p.capacity)),
                ('buckets only grow in number', HALL, o.heads.len >= p.heads.len),
                ('the same entries are live', HALL, Forall('Int', lambda x: Eq(Sel(o.own, x) >= 0, Sel(p.own, x) >= 0), lambda x: [Sel(o.own, x), Sel(p.own, x)])),
                ('as many live entries', HALL, Eq(Sel(o.ps, o.heads.len), Sel(p.ps, p.heads.len))),
                ('links of other entries stay', HFREE, Forall('Int', lambda x: Implies(And(Sel(p.own, x) < 0, I0 <= x, x < o.nexts.len), Eq(Sel(o.nexts.data, x), Ite(x < p.nexts.len, Sel(p.nexts.data, x), M1))), lambda x: Sel(o.nexts.data, x))),
                ('counted as a change', H06, Or(Eq(o.modificationCount, p.modificationCount + 1), Eq(o.modificationCount, p.modificationCount + 1 - 2**32)))]
        for a, ty in zip(self.arrays, (self.kt, self.vt)):
            x_, y_ = getattr(o, a).data, getattr(p, a)
            out.append(('%s stay, new slots are defaults' % a, HALL if a == 'keys' else ('H04', 'H07', 'G01', 'H06'),
                        Forall('Int', lambda x: Implies(And(I0 <= x, x < o.capacity), Eq(Sel(x_, x), Ite(x < y_.len, Sel(y_.data, x), ty.default(ex)))), lambda x: Sel(x_, x))))
        return out
    @property
    def loops(self): return rehash_loops(self)


def one_down(c, e2, e):
    """a walk along a chain of the old state moves down one place"""
    p = c.old.this; i = c.g['bucket']
    return [('the next entry is the one below', Eq(look_var(p, e2), Sel(p.pos, e))),
            ('one entry per place', Forall('Int', lambda x: Implies(And(Eq(Sel(p.own, x), i), Eq(Sel(p.pos, x), Sel(p.pos, e))), Eq(x, e)), lambda x: Sel(p.own, x)))]


def rehash_loops(spec):
    def base(c, moved, count):
        o, p = c.this, c.old.this
        out = chain(o, p.keys.len)
        out += [('exactly the entries passed are linked', HALL, Forall('Int', lambda x: Eq(Sel(o.own, x) >= 0, moved(x)), lambda x: [Sel(o.own, x), Sel(p.own, x)])),
                ('links of other entries stay', HFREE, Forall('Int', lambda x: Implies(And(Sel(p.own, x) < 0, I0 <= x, x < o.nexts.len), Eq(Sel(o.nexts.data, x), Ite(x < p.nexts.len, Sel(p.nexts.data, x), M1))), lambda x: Sel(o.nexts.data, x))),
                ('number linked', HALL, Eq(Sel(o.ps, o.heads.len), count))]
        return out
    def outer(c, L):
        p = c.old.this; i = L.iter
        return [('position', HALL, i <= p.maxHead + 1)] + \
            base(c, lambda x: And(Sel(p.own, x) >= 0, Sel(p.own, x) < i), Sel(p.ps, i))
    def left(p, e): return Ite(e >= 0, Sel(p.pos, e) + 1, I0)
    def inner(c, L):
        p = c.old.this; i, e = c.g['bucket'], L.entry; r = left(p, e)
        return [('position', HALL, And(i >= 0, i <= p.maxHead, Implies(e >= 0, Eq(Sel(p.own, e), i))))] + \
            base(c, lambda x: And(Sel(p.own, x) >= 0, Or(Sel(p.own, x) < i, And(Eq(Sel(p.own, x), i), Sel(p.pos, x) >= r))), Sel(p.ps, i) + Sel(p.cl, i) - r)
    def init(c, L):
        z = lambda v: defarr(c, 'g', lambda x: v)
        return {'ct': defarr2(c, 'ct', lambda h, p: M1), 'cl': z(I0), 'own': z(M1), 'pos': z(I0), 'ps': z(I0)}
    def step(c, L, Lh):
        o = c.this; e = Lh.entry
        return push(c, o, bk(o, Sel(c.old.this.keys.data, e)), e)
    gm = ('ct', 'cl', 'own', 'pos', 'ps')
    return [LoopSpec('rehash buckets', 'rehash', inv=outer, variant=lambda c, L: c.old.this.maxHead + 1 - L.iter, order=0, gmods=gm, ginit=init, gset=lambda c, L: {'bucket': L.iter}),
            LoopSpec('rehash chain', 'rehash', vars={'entry': 'I'}, walks=('entry',), inv=inner, variant=lambda c, L: left(c.old.this, L.entry), order=1, gmods=gm, gstep=step, cuts=lambda c, L, Lh: one_down(c, L.entry, Lh.entry))]


class Add(HM):
    name = 'add'; pnames = ('key',); mods = HM.hmods; calls = (ComputeHead, Rehash)
    def world(self, ex, st, fr): st.g['bucket'] = Fresh('bucket', 'Int')
    def requires(self, c):
        o = c.this
        return [('fewer than 2^29 entries handed out, or one to reuse', Or(o.nextUnusedEntry < CAP, o.fn > 0)), ('fewer than 2^31-1 keys', o.size < 2**31 - 1)]
    def new(self, c):
        p = c.old.this
        return Sel(p.em, cls_of(p.equalFunc, self.k(c))) < 0
    def witness(self, c):
        o, p = c.this, c.old.this
        new = self.new(c)
        if c.ex.valid(c.st, Not(new)): return {}
        e = c.res; k = cls_of(o.equalFunc, self.k(c))
        if c.ex.valid(c.st, Eq(o.size, p.size)): return {}        # paths that return an existing entry
        w = push(c, o, bk(o, self.k(c)), e)
        w.update({'em': defarr(c, 'em', lambda x: Ite(Eq(x, k), e, Sel(o.em, x))),
                  'fn': Ite(o.fn > 0, o.fn - 1, o.fn), 'fidx': defarr(c, 'fidx', lambda x: Ite(Eq(x, e), M1, Sel(o.fidx, x)))})
        return w
    def ensures(self, c):
        o, p = c.this, c.old.this; new = self.new(c); k = cls_of(p.equalFunc, self.k(c)); e = c.res
        out = [('adding a present key: ' + l, g, Implies(Not(new), t)) for l, g, t in unchanged(o, p, self)]
        out += [('the entry is an index', HALL, e >= 0),
                ('the entry of the key', HALL, Eq(Sel(o.em, k), e)),
                ('a present key keeps its entry', H12, Implies(Not(new), Eq(e, Sel(p.em, k)))),
                ('every other key stays as it was', HALL, Forall('Int', lambda x: Implies(Ne(x, k), Eq(Sel(o.em, x), Sel(p.em, x))), lambda x: Sel(o.em, x))),
                ('live entries', HALL, Forall('Int', lambda x: Eq(Sel(o.own, x) >= 0, Or(Sel(p.own, x) >= 0, Eq(x, e))), lambda x: [Sel(o.own, x), Sel(p.own, x)])),
                ('the entry was not in use', HALL, Implies(new, Sel(p.own, e) < 0)),
                ('the entry holds the key', HALL, Implies(new, Eq(Sel(o.keys.data, e), self.k(c)))),
                ('one key more', HALL, Eq(o.size, p.size + Ite(new, I1, I0))),
                ('a freed entry is reused, otherwise the lowest entry never handed out', H03, Implies(new, Ite(p.fn > 0, Sel(p.fidx, e) >= 0, Eq(e, p.nextUnusedEntry)))),
                ('entries handed out', HFREE, Eq(o.nextUnusedEntry, p.nextUnusedEntry + Ite(And(new, Eq(p.fn, I0)), I1, I0))),
                ('the other free entries stay free', HFREE, Forall('Int', lambda x: Eq(Sel(o.fidx, x) >= 0, And(Sel(p.fidx, x) >= 0, Or(Not(new), Ne(x, e)))), lambda x: Sel(o.fidx, x))),
                ('free entries counted', HFREE, Eq(o.fn, p.fn - Ite(And(new, p.fn > 0), I1, I0))),
                ('counted as a change', H06, Implies(new, advanced(o.modificationCount, p.modificationCount))),
                ('functions stay', HALL, And(Eq(o.hashFunc, p.hashFunc), Eq(o.equalFunc, p.equalFunc))),
                ('entries fit', HALL, And(e < o.capacity, o.capacity >= p.capacity))]
        out += [(l, g, Implies(new, t)) for l, g, t in kept(o, p, self, e)]
        if self.vt is not None:
            out.append(('a new key has the default value', H04, Implies(new, Eq(Sel(o.values.data, e), self.vt.default(c.ex)))))
        return out
    @property
    def loops(self):
        return [LoopSpec('find', 'add', vars={'e': 'I'}, walks=('e',), inv=lambda c, L: look_inv(c, L, c.this, self.k(c)), variant=lambda c, L: look_var(c.this, L.e))] + rehash_loops(self)


class Put(HM):
    name = 'put'; pnames = ('key', 'value'); mods = HM.hmods; calls = (Add,)
    requires = Add.requires
    def ensures(self, c):
        o, p = c.this, c.old.this; k = cls_of(p.equalFunc, self.k(c)); e = c.res
        new = Sel(p.em, k) < 0
        return [('the entry of the key', HALL, And(e >= 0, Eq(Sel(o.em, k), e))),
                ('every other key stays as it was', HALL, Forall('Int', lambda x: Implies(Ne(x, k), Eq(Sel(o.em, x), Sel(p.em, x))), lambda x: Sel(o.em, x))),
                ('a present key keeps its entry', H12, Implies(Not(new), Eq(e, Sel(p.em, k)))),
                ('the entry was not in use', HALL, Implies(new, Sel(p.own, e) < 0)),
                ('live entries', HALL, Forall('Int', lambda x: Eq(Sel(o.own, x) >= 0, Or(Sel(p.own, x) >= 0, Eq(x, e))), lambda x: Sel(o.own, x))),
                ('the entry holds the key', HALL, Implies(new, Eq(Sel(o.keys.data, e), self.k(c)))),
                ('the value put', H04, Eq(Sel(o.values.data, e), c.ex.term(c.argv('value')))),
                ('one key more', HALL, Eq(o.size, p.size + Ite(new, I1, I0))),
                ('a freed entry is reused, otherwise the lowest entry never handed out', H03, Implies(new, Ite(p.fn > 0, Sel(p.fidx, e) >= 0, Eq(e, p.nextUnusedEntry)))),
                ('entries handed out', HFREE, Eq(o.nextUnusedEntry, p.nextUnusedEntry + Ite(And(new, Eq(p.fn, I0)), I1, I0))),
                ('the other free entries stay free', HFREE, Forall('Int', lambda x: Eq(Sel(o.fidx, x) >= 0, And(Sel(p.fidx, x) >= 0, Or(Not(new), Ne(x, e)))), lambda x: Sel(o.fidx, x))),
                ('replacing a value is no structural change', H06, Implies(Not(new), Eq(o.modificationCount, p.modificationCount))),
                ('counted as a change', H06, Implies(new, advanced(o.modificationCount, p.modificationCount))),
                ] + kept(o, p, self, e)


class PutValueAt(HM):
    name = 'putValueAt'; pnames = ('entry', 'value'); mods = ('values',)
    def requires(self, c):
        o = c.this
        return [('a live or reserved entry', Implies(And(I0 <= c.entry, c.entry < o.nexts.len), And(c.entry < o.nextUnusedEntry, Sel(o.fidx, c.entry) < 0)))]
    def raises(self, c): return {AIOOBE: Or(c.entry < 0, c.entry >= c.this.values.len)}
    def ensures(self, c):
        o, p = c.this, c.old.this
        return [('the value put', H04, Eq(Sel(o.values.data, c.entry), c.ex.term(c.argv('value')))),
                ('other values stay', H04, Forall('Int', lambda x: Implies(Ne(x, c.entry), Eq(Sel(o.values.data, x), Sel(p.values.data, x))), lambda x: Sel(o.values.data, x)))]


class Get(HM):
    name = 'get'; pnames = ('key',); calls = (Lookup,); tags = HALL
    def m(self, c): return Sel(c.this.em, cls_of(c.this.equalFunc, self.k(c)))
    def raises(self, c): return {KNF: self.m(c) < 0}
    def ensures(self, c): return [('the value of the key', H04, Eq(c.ex.term(c.resv), Sel(c.this.values.data, self.m(c))))]


class GetOrDefault(Get):
    name = 'getOrDefault'; pnames = ('key', 'defaultValue')
    def raises(self, c): return {}
    def ensures(self, c): return [('the value of the key or the supplied default', H04, Eq(c.ex.term(c.resv), Ite(self.m(c) >= 0, Sel(c.this.values.data, self.m(c)), c.ex.term(c.argv('defaultValue')))))]


class GetValueAt(HM):
    name = 'getValueAt'; pnames = ('entry',)
    def raises(self, c): return {AIOOBE: Or(c.entry < 0, c.entry >= c.this.values.len)}
    def ensures(self, c): return [('the value of the entry', H04, Eq(c.ex.term(c.resv), Sel(c.this.values.data, c.entry)))]


class GetValueAtOr(HM):
    name = 'getValueAtOrDefault'; pnames = ('entry', 'defaultValue')
    def ensures(self, c):
        n = c.this.values.len
        return [('the value of the entry or the supplied default', H04, Eq(c.ex.term(c.resv), Ite(And(c.entry >= 0, c.entry < n), Sel(c.this.values.data, c.entry), c.ex.term(c.argv('defaultValue')))))]


def prev_inv(o, e, prev):
    h = Sel(o.own, e)
    return And(Implies(prev < 0, Eq(Sel(o.pos, e), Sel(o.cl, h) - 1)), Implies(prev >= 0, And(Eq(Sel(o.own, prev), h), Eq(Sel(o.pos, prev), Sel(o.pos, e) + 1))))


class Remove(HM):
    """remove(key): removed and freed"""
    name = 'remove'; mods = HM.hmods; calls = (ComputeHead,)
    @property
    def pnames(self): return ('key',) if not self.desc.endswith('Z)I') else ('key', 'free')
    def target(self, c): return Sel(c.old.this.em, cls_of(c.old.this.equalFunc, self.k(c)))
    def freed(self, c): return TRUE
    def gone(self, c): return self.target(c) >= 0
    def witness(self, c):
        p = c.old.this
        if c.ex.valid(c.st, Eq(c.this.size, p.size)): return {}
        e = self.target(c); w = pull(c, p, e); f = self.freed(c)
        if f is TRUE or (f is not FALSE and c.ex.valid(c.st, f)): w.update(free_push(c, p, e))
        return w
    def ensures(self, c):
        o, p = c.this, c.old.this; g = self.gone(c); e = self.target(c)
        out = [('nothing to remove: ' + l, t, Implies(Not(g), x)) for l, t, x in unchanged(o, p, self)]
        out += [(l, t, Implies(g, x)) for l, t, x in removed(o, p, self, e, self.freed(c))]
        if c.resv is not None: out.append(('the entry freed, or -1', HALL, Eq(c.res, e)))
        return out
    @property
    def loops(self):
        def inv(c, L):
            o = c.this
            return look_inv(c, L, o, self.key_of(c)) + [('predecessor', HALL, Implies(L.e >= 0, prev_inv(o, L.e, L.prev)))]
        def inv_t(c, L):
            o = c.this; e = L.e; t = self.target(c)
            return [('still ahead', HALL, Implies(e >= 0, And(Eq(Sel(o.own, e), L.head), Sel(o.own, t) < 0 if False else TRUE))),
                    ('target ahead', HALL, Implies(Sel(o.own, t) >= 0, And(e >= 0, Sel(o.pos, t) <= Sel(o.pos, e), Eq(Sel(o.own, t), L.head)))),
                    ('predecessor', HALL, Implies(e >= 0, prev_inv(o, e, L.prev)))]
        return [LoopSpec('find', 'remove', vars={'e': 'I', 'prev': 'I'}, walks=('e', 'prev'), inv=inv if self.by_key else inv_t, variant=lambda c, L: look_var(c.this, L.e))] if self.by_key else \
            [self.head_loop(), LoopSpec('find', self.name, vars={'e': 'I', 'prev': 'I', 'head': 'I'}, walks=('e', 'prev'), keeps=('head',), inv=inv_t, variant=lambda c, L: look_var(c.this, L.e))]
    by_key = True
    def key_of(self, c): return self.k(c)


class RemoveAt(Remove):
    name = 'removeAt'; by_key = False; pnames = ('entry',)
    def raises(self, c):
        o = c.this
        return {AIOOBE: ('only', Or(c.entry < 0, c.entry >= o.nexts.len))}
    def target(self, c): return c.entry
    def gone(self, c): return Sel(c.old.this.own, c.entry) >= 0
    def head_loop(self):
        def inv(c, L):
            o = c.this; x, e = c.entry, L.entry
            live = Sel(o.own, x) >= 0
            return [('towards the bucket of a live entry', HALL, Implies(live, And(Implies(e >= 0, Eq(Sel(o.own, e), Sel(o.own, x))), Implies(e < 0, Eq(e, -Sel(o.own, x) - 1))))),
                    ('towards some bucket', HFREE, Implies(Not(live), And(Implies(e >= 0, Or(Sel(o.fidx, e) >= 0, Eq(e, x))), Implies(And(e < 0, Or(Ne(e, x), x >= 0)), -e - 1 < o.heads.len))))]
        def var(c, L):
            o = c.this; e = L.entry
            return Ite(e < 0, I0, Ite(Sel(o.own, e) >= 0, Sel(o.pos, e) + 1, Ite(Sel(o.fidx, e) >= 0, Sel(o.fidx, e) + 1, o.fn + 2)))
        return LoopSpec('bucket of an entry', 'getHead', vars={'entry': 'I'}, inv=inv, variant=var)


class RemoveReserve(Remove):
    name = 'removeAtAndReserve'; pnames = ('entry',)
    def requires(self, c): return [('a live entry', Sel(c.this.own, c.entry) >= 0)]
    def target(self, c): return c.entry
    def gone(self, c): return TRUE
    def freed(self, c): return FALSE
    def key_of(self, c): return Sel(c.old.this.keys.data, c.entry)


class FreeReserved(HM):
    name = 'freeReservedEntry'; pnames = ('entry',); mods = HM.hmods
    def requires(self, c):
        o = c.this
        return [('a reserved entry', And(c.entry >= 0, c.entry < o.nextUnusedEntry, Sel(o.own, c.entry) < 0, Sel(o.fidx, c.entry) < 0))]
    def witness(self, c): return free_push(c, c.old.this, c.entry)
    def ensures(self, c):
        o, p = c.this, c.old.this
        return [('live entries stay', HALL, And(*[Eq(getattr(o, g), getattr(p, g)) for g in ('ct', 'cl', 'own', 'pos', 'em', 'ps')])),
                ('size stays', HALL, Eq(o.size, p.size)),
                ('the entry becomes available', HFREE, Forall('Int', lambda x: Eq(Sel(o.fidx, x) >= 0, Or(Sel(p.fidx, x) >= 0, Eq(x, c.entry))), lambda x: Sel(o.fidx, x))),
                ('entries handed out', HFREE, Eq(o.nextUnusedEntry, p.nextUnusedEntry)),
                ('no structural change', H06, Eq(o.modificationCount, p.modificationCount))] + kept(o, p, self, c.entry)


class Clear(HM):
    name = 'clear'; mods = HM.hmods
    witness = Init.witness
    def ensures(self, c):
        o, p = c.this, c.old.this
        out = fresh_collection(o) + [('a clear of a non-empty collection is a change', H06, Implies(p.size > 0, advanced(o.modificationCount, p.modificationCount)))]
        for a, ty in zip(self.arrays, (self.kt, self.vt)):
            d = getattr(o, a)
            out.append(('every %s reads as the default' % a[:-1], G1, Forall('Int', lambda x: Implies(And(I0 <= x, x < d.len), Eq(Sel(d.data, x), ty.default(c.ex))), lambda x: Sel(d.data, x))))
        return out


class ForEach(HM):
    """the callback may remove the entry it is given, by key or by entry, freeing or reserving it"""
    tags = ('H05',); props = H05; exc_tags = H05
    mods = HM.hmods
    def world(self, ex, st, fr):
        st.g['seen'] = defarr(C(fr, st), 'seen', lambda x: FALSE, 'Bool')
        st.g['visits'] = I0; st.g['bucket'] = Fresh('bucket', 'Int')
    def callback(self, ex, st, fr, fn, name, args):
        if name != 'accept': return super().callback(ex, st, fr, fn, name, args)
        c = C(fr, st); o = c.this
        a = ex.term(args[0])
        if self.name == 'forEachEntry': e = a
        elif self.name == 'forEach':
            e = Sel(o.em, cls_of(o.equalFunc, a))
            ex.oblige(st, 'passes the key of a live entry', Implies(e >= 0, Eq(a, Sel(o.keys.data, e))), 'visit')
        else:
            if a.op != 'select': raise Unsupported('value of unknown origin')
            e = a.args[1]
            ex.oblige(st, 'passes the value of a live entry', Eq(a, Sel(o.values.data, e)), 'visit')
        seen = st.g['seen']
        ex.oblige(st, 'visits live entries only', And(e >= 0, Sel(o.own, e) >= 0), 'visit')
        ex.oblige(st, 'visits no entry twice', Not(Sel(seen, e)), 'visit')
        st.assume(And(Sel(o.own, e) >= 0, Not(Sel(seen, e))))
        st.g['seen'] = defarr(c, 'seen', lambda x: Or(Sel(seen, x), Eq(x, e)), 'Bool')
        st.g['visits'] = st.g['visits'] + 1
        # the callback leaves the collection alone, or removes the entry
        s2 = st.fork()
        pre = C(Frame(ex, self, fr.this, fr.args, None), st.fork()).this
        n = fr.this.n; f = s2.heap[n].f
        fields = {(n, x) for x in ['size', 'freeList', 'modificationCount'] + ['$' + g for g in GH]}
        arrays = {f[x].n for x in ('heads', 'nexts') + self.arrays}
        ex.havoc_heap(s2, fields, arrays)
        o2 = View(ex, s2, n); freed = Fresh('freed', 'Bool')
        for l, g, t in self.cspec.inv(o2, ex) + removed(o2, pre, self, e, freed): s2.assume(t)
        return [(st, 'ret', None), (s2, 'ret', None)]
    def ensures(self, c):
        x = Fresh('x', 'Int'); p = c.old.this
        return [('every live entry is visited', H05, Implies(Sel(p.own, x) >= 0, Sel(c.g['seen'], x)))]
    @property
    def loops(self):
        def base(c, done):
            o, p, seen = c.this, c.old.this, c.g['seen']
            return [('entries visited', H05, Forall('Int', lambda x: Implies(Sel(p.own, x) >= 0, Eq(Sel(seen, x), done(x))), lambda x: [Sel(seen, x), Sel(p.own, x)])),
                    ('entries to visit are untouched', H05, Forall('Int', lambda x: Implies(And(Sel(p.own, x) >= 0, Not(Sel(seen, x))), And(Eq(Sel(o.own, x), Sel(p.own, x)), Eq(Sel(o.pos, x), Sel(p.pos, x)))), lambda x: [Sel(o.own, x), Sel(p.own, x)])),
                    ('no other entries', H05, Forall('Int', lambda x: Implies(Sel(o.own, x) >= 0, Eq(Sel(o.own, x), Sel(p.own, x))), lambda x: [Sel(o.own, x), Sel(p.own, x)])),
                    ] + [('invariant ' + l, t, g) for l, t, g in self.cspec.inv(o, c.ex)]
        def outer(c, L):
            o, p = c.this, c.old.this; h = L.iter
            return [('position', H05, And(h < p.heads.len if L.bottom else h <= p.heads.len, Eq(c.g['visits'], Sel(p.ps, h)))),
                    ('chains to visit', H05, Forall('Int', lambda b: Implies(And(h <= b, b < p.heads.len), Eq(Sel(o.cl, b), Sel(p.cl, b))), lambda b: [Sel(o.cl, b), Sel(p.cl, b)]))] + \
                base(c, lambda x: Sel(p.own, x) < h)
        def inner(c, L):
            o, p = c.this, c.old.this; h, e = c.g['bucket'], L.e
            r = look_var(p, e)
            return [('position', H05, And(h >= 0, h < p.heads.len, Eq(c.g['visits'], Sel(p.ps, h) + Sel(p.cl, h) - r), Implies(e >= 0, Eq(Sel(p.own, e), h)))),
                    ('entries visited come first in the chain', H05, Forall('Int', lambda x: Implies(And(Eq(Sel(o.own, x), h), Sel(c.g['seen'], x)), Sel(o.pos, x) >= r), lambda x: [Sel(c.g['seen'], x), Sel(o.own, x)])),
                    ('chains to visit', H05, Forall('Int', lambda b: Implies(And(h < b, b < p.heads.len), Eq(Sel(o.cl, b), Sel(p.cl, b))), lambda b: [Sel(o.cl, b), Sel(p.cl, b)]))] + \
                base(c, lambda x: Or(Sel(p.own, x) < h, And(Eq(Sel(p.own, x), h), Sel(p.pos, x) >= r)))
        return [LoopSpec('buckets', self.name, inv=outer, variant=lambda c, L: c.old.this.heads.len - L.iter, order=0, gset=lambda c, L: {'bucket': L.iter}),
                LoopSpec('chain', self.name, vars={'e': 'I'}, inv=inner, variant=lambda c, L: look_var(c.old.this, L.e), order=1, walks=('e',),
                         cuts=lambda c, L, Lh: one_down(c, L.e, Lh.e))]


class SetMethod(HM):
    """replacing the hash or equality method of an empty collection"""
    pnames = ('f',); nullable = ('f',); tags = HALL
    field = None
    def raises(self, c):
        return {'java/lang/IllegalStateException': c.this.size > 0, 'java/lang/NullPointerException': And(Not(c.this.size > 0), Eq(c.f, NULLF))}
    @property
    def mods(self): return (self.field,)
    def ensures(self, c): return [('in force', HALL, Eq(getattr(c.this, self.field), c.f))]


class CopyFrom(HM):
    """the target becomes equal to the source and shares nothing with it; the source is another collection of the same class"""
    name = 'copyFrom'; pnames = ('source',); tags = H07; exc_tags = H07
    mods = HM.hmods + ('loadFactor', 'hashFunc', 'equalFunc')
    def args_make(self, ex, st, n, d): return self.cspec.make(ex, st)
    def requires(self, c): return [('source: ' + l, t) for l, g, t in self.cspec.inv(c.source, c.ex)]
    def witness(self, c): return {g: getattr(c.source, g) for g in GH}
    def ensures(self, c):
        o, p = c.this, c.source
        out = [('the same entries are live, free and reserved', H07, And(*[Eq(getattr(o, g), getattr(p, g)) for g in GH])),
               ('same size', H07, And(Eq(o.size, p.size), Eq(o.nextUnusedEntry, p.nextUnusedEntry))),
               ('same hash and equality', H07, And(Eq(o.hashFunc, p.hashFunc), Eq(o.equalFunc, p.equalFunc))),
               ('counted as a change', H06, advanced(o.modificationCount, c.old.this.modificationCount))]
        for a in self.arrays:
            x, y = getattr(o, a), getattr(p, a)
            out.append(('same %s' % a, H07, And(x.len >= y.len, Forall('Int', lambda e: Implies(And(I0 <= e, e < y.len), Eq(Sel(x.data, e), Sel(y.data, e))), lambda e: Sel(x.data, e)))))
        return out


# ---------------------------------------------------------------- iterator
OUTER = 'this$0'


class ItCls(ClassSpec):
    """cp: position in its chain of the entry last returned (chain positions below it are still to come)"""
    ghosts = {'cp': 'Int'}
    def __init__(self, hc): self.hc = hc; super().__init__(P + 'hash/BaseHash$IteratorImpl')
    def field(self, ex, st, x):
        if x.name == OUTER: return self.hc.make(ex, st)
        return super().field(ex, st, x)
    def inv(self, it, ex):
        o = getattr(it, OUTER)
        return self.hc.inv(o, ex) + it_inv(it, o)


def started(it): return Eq(it.initialized, I1)
def it_removed(it): return Eq(it.isRemoved, I1)
def in_sync(it, o): return Eq(it.internalModCount, o.modificationCount)


def it_inv(it, o):
    h, e, cp, H = it.head, it.entry, it.cp, o.heads.len
    n = Sel(o.cl, h); pv = it.prev
    at = And(started(it), h < H)
    def behind(p): return And(Implies(pv < 0, Eq(n, p)), Implies(pv >= 0, And(Eq(Sel(o.own, pv), h), Eq(Sel(o.pos, pv), p))))
    t = HALL        # a removal through an iterator in any other position would corrupt the collection
    out = [('position of a fresh iterator', And(h >= -1, Implies(Not(started(it)), And(Eq(h, M1), it.entry < 0, it.prev < 0, it.next < 0, Not(it_removed(it)))))),
           ('position in a chain', Implies(at, And(h >= 0, cp >= 0, cp <= n, Implies(cp > 0, Eq(it.next, ct(o, h, cp - 1))), Implies(Eq(cp, I0), it.next < 0)))),
           ('current entry', Implies(And(at, Not(it_removed(it))), And(e >= 0, Eq(Sel(o.own, e), h), Eq(Sel(o.pos, e), cp), behind(cp + 1)))),
           ('after a removal', Implies(And(at, it_removed(it)), behind(cp))),
           ('past the end', Implies(And(started(it), h >= H), And(e < 0, it.next < 0)))]
    return [('iterator: ' + l, t, Implies(in_sync(it, o), x)) for l, x in out]


def rem(it, o, x):
    """live entry x is still to come"""
    return Or(Not(started(it)), Sel(o.own, x) > it.head, And(Eq(Sel(o.own, x), it.head), Sel(o.pos, x) < it.cp))


class ItM(MethodSpec):
    H56 = ('H05', 'H06')
    tags = H56; exc_tags = H56; props = HALL
    elems = HM.elems; side = HM.side
    itf = ('initialized', 'isRemoved', 'internalModCount', 'head', 'entry', 'prev', 'next', 'cp')
    def __init__(self, kt, vt=None, **kw):
        self.hc = HCls(kt, vt); self.cspec = ItCls(self.hc); self.cls = self.cspec.cls; self.variant = self.hc.cls.split('/')[-1]
        self.arrays = ('keys',) if vt is None else ('keys', 'values')
        super().__init__(**kw)
        self.uses = contracts(TYPES['Int']) + contracts(kt) + (contracts(vt) if vt is not None else ())
    def outer(self, c): return getattr(c.this, OUTER)
    def key(self): return 'IteratorImpl.%s for %s' % (self.name, self.variant)
    @property
    def loops(self):
        def inv(c, L):
            it, p = c.this, c.old.this; o = self.outer(c)
            return [('no entry found yet', HALL, And(Or(p.head + 1 + L.iter <= o.heads.len, Eq(L.iter, I0)), Or(it.entry < 0, Eq(it.entry, L.before(it).entry)))),
                    ('buckets passed over are empty', self.H56, And(
                        Forall('Int', lambda b: Implies(And(p.head < b, b <= p.head + L.iter), Sel(o.cl, b) <= 0), lambda b: Sel(o.cl, b))))]
        return [LoopSpec('next bucket', 'nextHead', inv=inv, variant=lambda c, L: self.outer(c).heads.len - c.old.this.head - L.iter)]


CME = 'java/util/ConcurrentModificationException'
ISE = 'java/lang/IllegalStateException'


class ItNext(ItM):
    name = 'next'; mods = tuple(x for x in ItM.itf if x != 'internalModCount')
    def requires(self, c): return [('position fits', c.this.head < 2**31 - 1)]
    def raises(self, c): return {CME: Not(in_sync(c.this, self.outer(c)))}
    def witness(self, c): return {'cp': Ite(c.this.entry >= 0, Sel(self.outer(c).pos, c.this.entry), I0)}
    def ensures(self, c):
        it, q = c.this, c.old.this; o = self.outer(c); e = it.entry; yes = Eq(c.res, I1)
        x = Fresh('x', 'Int')
        return [('the current entry was still to come', self.H56, Implies(yes, And(e >= 0, Sel(o.own, e) >= 0, rem(q, o, e), started(it), it.head < o.heads.len, Not(it_removed(it))))),
                ('exactly it is no longer to come', self.H56, Implies(And(yes, Sel(o.own, x) >= 0), Eq(rem(it, o, x), And(rem(q, o, x), Ne(x, e))))),
                ('the end is reached only when nothing is to come', self.H56, Implies(And(Not(yes), Sel(o.own, x) >= 0), And(Not(rem(q, o, x)), Not(rem(it, o, x)))))]


class ItRemove(ItM):
    name = 'remove'
    @property
    def mods(self): return ('isRemoved', 'internalModCount', 'next', 'cp') + tuple('%s.%s' % (OUTER, f) for f in ('size', 'freeList', 'modificationCount', 'heads', 'nexts') + self.arrays + tuple('$' + g for g in GH))
    def requires(self, c):
        it = c.this; o = self.outer(c)
        return [('an entry has been returned', Implies(And(in_sync(it, o), Not(it_removed(it))), And(started(it), it.head < o.heads.len)))]
    def raises(self, c):
        s = in_sync(c.this, self.outer(c))
        return {CME: Not(s), ISE: And(s, it_removed(c.this))}
    def witness(self, c):
        p = self.outer(c.old); e = c.old.this.entry; w = pull(c, p, e); w.update(free_push(c, p, e))
        l = c.st.heap[c.fr.this.n].f[OUTER].n
        return {(l, g): t for g, t in w.items()}
    def ensures(self, c):
        it, q = c.this, c.old.this; o = self.outer(c); p = self.outer(c.old); e = q.entry
        x = Fresh('x', 'Int')
        return removed(o, p, self, e, TRUE) + [
            ('what is still to come stays', self.H56, Implies(Sel(o.own, x) >= 0, Eq(rem(it, o, x), rem(q, p, x)))),
            ('the iterator stays valid', H06, And(in_sync(it, o), it_removed(it), started(it)))]


class ItReset(ItM):
    name = 'reset'; mods = ItM.itf
    def witness(self, c): return {'cp': I0}
    def ensures(self, c): return [('everything is to come', self.H56, And(in_sync(c.this, self.outer(c)), Not(started(c.this))))]


class ItCurrent(ItM):
    name = 'currentEntry'
    def ensures(self, c): return [('the entry last returned', self.H56, Eq(c.res, c.this.entry))]


class Iterator(HM):
    name = 'iterator'; desc = '()L' + P + 'EntryIterator;'; tags = ('H05', 'H06'); exc_tags = ('H05', 'H06'); props = HALL
    def ensures(self, c):
        v = c.resv; st = c.st
        ok = isinstance(v, Loc) and getattr(st.heap[v.n], 'cls', '') == P + 'hash/BaseHash$IteratorImpl' and st.heap[v.n].f[OUTER].n == c.fr.this.n
        if not ok: return [('an iterator over this collection', self.tags, FALSE)]
        it = View(c.ex, st, v.n); st.heap[v.n].f['$cp'] = I0
        return [('an iterator over this collection, with everything to come', self.tags, And(in_sync(it, c.this), Not(started(it))))] + it_inv(it, c.this)


class IteratorReuse(ItM):
    """iterator(previous iterator of the same collection)"""
    name = 'iterator'; desc = '(L%sEntryIterator;)L%sEntryIterator;' % (P, P); pnames = ('enumerator',)
    def __init__(self, kt, vt=None, **kw):
        super().__init__(kt, vt, **kw)
        self.it = self.cspec; self.cspec = self.hc; self.cls = self.hc.cls
    def key(self): return '%s.iterator(EntryIterator)' % self.variant
    def world(self, ex, st, fr):
        v = fr.args['enumerator']; st.setf(v.n, OUTER, fr.this)
    loops = ()
    mods = ('arg:enumerator',)
    def args_make(self, ex, st, n, d): return self.it.make(ex, st)
    def ensures(self, c):
        if not (isinstance(c.resv, Loc) and c.resv.n == c.fr.args['enumerator'].n): return [('the iterator passed in', self.tags, FALSE)]
        it = c.enumerator
        return [('an iterator with everything to come', self.tags, And(in_sync(it, c.this), Not(started(it))))] + it_inv(it, c.this)


SETTABLE = ('Float', 'Double', 'String', 'Generic')


class SetHash(SetMethod): name = 'setHashMethod'; field = 'hashFunc'
class SetEq(SetMethod): name = 'setEqMethod'; field = 'equalFunc'


def core(kt, vt):
    K = kt.d if kt.name != 'Generic' else 'Ljava/lang/Object;'
    C_ = HCls(kt, vt).cls
    out = [k(kt, vt) for k in (Lookup, Contains, GetKeyAt, Size, IsEmpty, Rehash, FreeReserved, Clear, RemoveReserve, RemoveAt)]
    out += [Add(kt, vt, desc='(%s)I' % K), Remove(kt, vt, desc='(%s)I' % K), Init(kt, vt, desc='(I)V'), Init(kt, vt, desc='(ID)V')]
    out += [ForEach(kt, vt, name=n, pnames=('consumer',)) for n in ('forEach', 'forEachEntry') + (('forEachValue',) if vt else ())]
    out += [CopyFrom(kt, vt, desc='(L%s;)V' % C_)] + [k(kt, vt) for k in (ItNext, ItRemove, ItReset, ItCurrent, Iterator, IteratorReuse)]
    if kt.name in SETTABLE: out += [SetHash(kt, vt), SetEq(kt, vt)]
    if vt is not None:
        out += [k(kt, vt) for k in (Put, PutValueAt, Get, GetOrDefault, GetValueAt, GetValueAtOr)]
    return out


def build(pairs):
    return [arith.ScaleLemma(HALL), arith.MaskLemma(HALL)] + [x for kt, vt in pairs for x in core(kt, vt)]


KT = [t for t in ALL if t.name != 'Bool']


def specs(types):
    ks = [t for t in types if t.name != 'Bool']
    return build([(t, None) for t in ks] + [(t, types[-1]) for t in ks])


def tier_specs(tier, prop):
    """quick: every set, and maps covering every key type and every value type; thorough: every map"""
    T = TYPES
    if tier == 'quick': maps = [(T[a], T[b]) for a, b in (('Int', 'Int'), ('Int', 'Bool'), ('Long', 'Long'), ('Byte', 'Float'), ('Short', 'Byte'), ('Char', 'Short'), ('Float', 'Char'), ('Double', 'String'), ('String', 'Double'), ('Generic', 'Generic'))]
    else: maps = [(a, b) for a in KT for b in ALL]
    return [x for x in build([(t, None) for t in KT] + maps) if prop is None or prop in x.props]
