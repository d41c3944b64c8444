"""T01, T02: chunked stores as maps from index (or row and field) to value."""
from ..contract import *
from .types import *
from .arrays import contracts
from . import nums, arith

T1, T2 = ('T01',), ('T02',)
RCE = P + 'exception/RangeCheckException'
IEX = P + 'exception/InitializationException'
MAXI = 2**31 - 1


def mul(c, a, b): return c.ex.dom.mul(c.ex, c.st, a, b)


def lo(o, j): return App('and_I', 'Int', j, o.chunkMask) if o.chunkMask.op != 'int' else None


def cell(o, j):
    """the stored value of linear index j >= 0"""
    return Sel(Sel(o.chunks.data, App('shr_I', 'Int', j, o.shift)), App('and_I', 'Int', j, o.chunkMask))


class SplitLemma(Lemma):
    """x = (x >> s) * c + (x & (c - 1)) with 0 <= x & (c - 1) < c, for x >= 0 and every power of two c = 2^s <= 2^30"""
    name = 'index split by a power of two'; mode = 'bv'; props = ('T01', 'T02'); tags = ('T01', 'T02')
    def obligations(self, ex):
        x = Fresh('x', ('BV', 32)); out = []
        z = lambda t: Op('(_ zero_extend 32)', ('BV', 64), t)
        from ..jdk import ntz
        for s in range(31):
            c = 1 << s
            hi = Op('bvashr', x.sort, x, BVC(s, 32)); low = Op('bvand', x.sort, x, BVC(c - 1, 32))
            out.append(('c = 2^%d' % s, self.tags, [BVC(0, 32) <= x],
                        And(Eq(z(x), Add(Mul(z(hi), BVC(c, 64)), z(low))), BVC(0, 32) <= low, low < BVC(c, 32), BVC(0, 32) <= hi)))
            cc = Fresh('c', ('BV', 64))
            out.append(('trailing zeros of 2^%d' % s, self.tags, [Eq(cc, BVC(c, 64))], Eq(ntz(ex, cc), BVC(s, 32))))
        return out


class StoreCls(ClassSpec):
    def __init__(self, ty, matrix):
        self.ty = ty; self.matrix = matrix; self.tags = T2 if matrix else T1
        super().__init__(P + 'store/%sChunk%sStore' % (ty.name, 'Matrix' if matrix else ''))
    def inv(self, o, ex):
        c, ln = o.chunkSize, o.chunks.len
        nn = o.chunks.nn; t = self.tags
        tot = ex.dom.mul(ex, None, ln, c)
        out = [('chunk size is a power of two', t, And(nums.pow2(c), c >= 1, c <= 2**30)),
               ('mask and shift belong to the chunk size', t, And(Eq(o.chunkMask, c - 1), Eq(o.shift, App('ntz', 'Int', c)))),
               ('every chunk is present and full', t, And(Eq(o.chunks.rowlen, c), Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < ln), Sel(nn, k)), lambda k: Sel(nn, k)))),
               ('total size is an int', t, And(tot >= 0, tot <= MAXI))]
        if self.matrix:
            f = o.numFields
            q, r = App('div_I', 'Int', tot, f), App('rem_I', 'Int', tot, f)
            out.append(('capacity in full rows', t, And(f >= 1, Eq(o.capacity, q))))
            used = ex.dom.mul(ex, None, f, o.capacity); df = self.ty.default(ex)
            out.append(('cells past the last full row are defaults', t, Forall('Int', lambda j: Implies(And(used <= j, j < tot), Eq(cell(o, j), df)), lambda j: cell(o, j))))
        else:
            out.append(('capacity', t, Eq(o.capacity, tot)))
        return out


class SM(MethodSpec):
    matrix = False
    def __init__(self, ty, matrix, **kw):
        self.ty = ty; self.matrix = matrix; self.cspec = StoreCls(ty, matrix); self.cls = self.cspec.cls
        self.tags = self.exc_tags = self.props = T2 if matrix else T1
        self.uses = contracts(ty) + nums.USES
        super().__init__(**kw)
    def axioms(self, c):
        ex = c.ex; o = c.this
        out = [Forall(['Int', 'Int'], lambda a, b: Eq(App('mulU', 'Int', a, b), App('mulU', 'Int', b, a)), lambda a, b: App('mulU', 'Int', a, b)),
               # x * y is monotone in y (integers)
               Forall(['Int', 'Int', 'Int'], lambda x, a, b: Implies(And(x >= 1, a < b), App('mulU', 'Int', x, a) + x <= App('mulU', 'Int', x, b)),
                      lambda x, a, b: [(App('mulU', 'Int', x, a), App('mulU', 'Int', x, b))]),
               Forall(['Int', 'Int'], lambda x, a: And(Implies(And(x >= 0, a >= 0), App('mulU', 'Int', x, a) >= 0), Implies(Eq(a, IntC(0)), Eq(App('mulU', 'Int', x, a), IntC(0)))), lambda x, a: App('mulU', 'Int', x, a)),
               # distributivity for the row just after
               Forall(['Int', 'Int'], lambda x, a: Eq(App('mulU', 'Int', x, a + 1), App('mulU', 'Int', x, a) + x), lambda x, a: App('mulU', 'Int', x, a)) if False else TRUE,
               # quotient and remainder (integers)
               Forall(['Int', 'Int'], lambda a, b: Implies(And(a >= 0, b >= 1), And(Eq(a, App('mulU', 'Int', b, App('div_I', 'Int', a, b)) + App('rem_I', 'Int', a, b)),
                                                                                App('rem_I', 'Int', a, b) >= 0, App('rem_I', 'Int', a, b) < b, App('div_I', 'Int', a, b) >= 0)),
                      lambda a, b: App('div_I', 'Int', a, b))]
        if self.name != '<init>':
            cs, m, s = o.chunkSize, o.chunkMask, o.shift
            def split(x):
                hi, low = App('shr_I', 'Int', x, s), App('and_I', 'Int', x, m)
                return Implies(x >= 0, And(Eq(x, App('mulU', 'Int', cs, hi) + low), low >= 0, low < cs, hi >= 0))
            out.append(Forall('Int', split, lambda x: [App('shr_I', 'Int', x, s), App('and_I', 'Int', x, m)]))
        return out
    def value(self, c, o, j, cap=None):
        return Ite(j < o.capacity, cell(o, j), self.ty.default(c.ex))
    def mvalue(self, c, o, r, f):
        return Ite(r < o.capacity, cell(o, mul(c, r, o.numFields) + f), self.ty.default(c.ex))


class Init(SM):
    name = '<init>'; inv_pre = False
    @property
    def pnames(self): return ('initialSize', 'chunkSize') + (('numFields',) if self.matrix else ())
    def requires(self, c):
        out = [('chunk size at most 2^30', c.chunkSize <= 2**30)]
        if self.matrix:
            raw = mul(c, c.initialSize, c.numFields)
            out.append(('initial cells fit an int', Implies(And(c.initialSize >= 1, c.numFields >= 1), raw + 2**30 <= MAXI) if False else
                        Implies(And(c.initialSize >= 1, c.numFields >= 1, c.chunkSize >= 2), raw + 2 * c.chunkSize <= MAXI)))
        else:
            out += [('initial size not negative', c.initialSize >= 0), ('chunk size positive', c.chunkSize >= 1),
                    ('initial size fits an int with its last chunk', c.initialSize + 2 * c.chunkSize <= MAXI)]
        return out
    def raises(self, c):
        if not self.matrix: return {}
        return {IEX: Or(c.initialSize < 1, c.chunkSize < 2, c.numFields < 1)}
    def ensures(self, c):
        o = c.this
        if self.matrix:
            r, f = Fresh('r', 'Int'), Fresh('f', 'Int')
            return [('every cell reads as the default', self.tags, Implies(And(r >= 0, f >= 0, f < o.numFields), Eq(self.mvalue(c, o, r, f), self.ty.default(c.ex)))),
                    ('number of fields', self.tags, Eq(o.numFields, c.numFields))]
        j = Fresh('j', 'Int')
        return [('every index reads as the default', self.tags, Implies(j >= 0, Eq(self.value(c, o, j), self.ty.default(c.ex))))]


class Get(SM):
    @property
    def name(self): return 'get' + self.ty.name
    @property
    def pnames(self): return ('row', 'field') if self.matrix else ('index',)
    def requires(self, c):
        if self.matrix: return [('row not negative', c.row >= 0)]
        return [('index not negative', c.index >= 0)]
    def raises(self, c):
        return {RCE: Or(c.field < 0, c.field >= c.this.numFields)} if self.matrix else {}
    def ensures(self, c):
        o = c.this
        v = self.mvalue(c, o, c.row, c.field) if self.matrix else self.value(c, o, c.index)
        return [('the stored value, or the default beyond the capacity', self.tags, Eq(c.ex.term(c.resv), v))]


class Set(SM):
    mods = ('*',)
    @property
    def name(self): return 'set' + self.ty.name
    @property
    def pnames(self): return ('row', 'field', 'value') if self.matrix else ('index', 'value')
    def requires(self, c):
        o = c.this
        if self.matrix:
            return [('row not negative', c.row >= 0), ('cells fit an int with the last chunk', Implies(c.row >= 0, And(mul(c, c.row + 1, o.numFields) + o.chunkSize <= MAXI, Eq(mul(c, c.row + 1, o.numFields), mul(c, c.row, o.numFields) + o.numFields))))]
        return [('index not negative', c.index >= 0), ('index fits an int with its chunk', c.index + o.chunkSize + 1 <= MAXI)]
    def raises(self, c):
        return {RCE: Or(c.field < 0, c.field >= c.this.numFields)} if self.matrix else {}
    def ensures(self, c):
        o, p = c.this, c.old.this
        v = c.ex.term(c.argv('value'))
        if self.matrix:
            r, f = Fresh('r', 'Int'), Fresh('f', 'Int')
            return [('the cell reads as the value set', self.tags, Eq(self.mvalue(c, o, c.row, c.field), v)),
                    ('every other cell is unchanged', self.tags,
                     Implies(And(r >= 0, f >= 0, f < p.numFields, Or(Ne(r, c.row), Ne(f, c.field))), Eq(self.mvalue(c, o, r, f), self.mvalue(c, p, r, f)))),
                    ('number of fields', self.tags, Eq(o.numFields, p.numFields))]
        j = Fresh('j', 'Int')
        return [('the index reads as the value set', self.tags, Eq(self.value(c, o, c.index), v)),
                ('every other index is unchanged', self.tags, Implies(And(j >= 0, Ne(j, c.index)), Eq(self.value(c, o, j), self.value(c, p, j))))]
    @property
    def loops(self):
        def inv(c, L):
            ch, old, o = c.this.chunks, c.old.this.chunks, c.this
            ol = old.len; i = ol + L.iter
            d, d0, nn = ch.data, old.data, ch.nn
            df = self.ty.default(c.ex)
            return [('position', self.tags, And(i <= ch.len, Eq(ch.rowlen, o.chunkSize))),
                    ('old chunks kept', self.tags, Forall('Int', lambda k: Implies(And(IntC(0) <= k, k < ol), And(Sel(nn, k), Eq(Sel(d, k), Sel(d0, k)))), lambda k: [Sel(d, k), Sel(nn, k)])),
                    ('new chunks are defaults', self.tags, And(Forall('Int', lambda k: Implies(And(ol <= k, k < i), Sel(nn, k)), lambda k: Sel(nn, k)),
                        Forall(['Int', 'Int'], lambda k, x: Implies(And(ol <= k, k < i, IntC(0) <= x, x < ch.rowlen), Eq(Sel(Sel(d, k), x), df)), lambda k, x: Sel(Sel(d, k), x))))]
        return [LoopSpec('grow', 'grow', inv=inv, variant=lambda c, L: c.this.chunks.len - L.iter)]


class Capacity(SM):
    name = 'getCapacity'
    def ensures(self, c): return [('capacity', self.tags, Eq(c.res, c.this.capacity))]


def specs(types):
    out = [SplitLemma(), arith.CeilLemma(), arith.ProductLemma(), arith.MaskLemma(('T01', 'T02'))]
    for ty in types:
        for mtx in (False, True):
            out += [k(ty, mtx) for k in (Init, Get, Set, Capacity)]
    return out
