"""C01-C06, H08: the element types' codecs, packing, comparators, predicates, flags, conversions and hashing, over the complete
domains (bit-vectors and IEEE bit patterns)."""
from ..contract import *
from ..jdk import kind_is, kind_of, objeq, KINDS
from .types import *
from ..symex import Arr, Obj
from . import nums

T = P + 'types/'
PRIM = [t for t in ALL if not t.ref]
CODEC = [TYPES[n] for n in ('Bool', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double')]
WIDTH = {'Z': 1, 'B': 1, 'C': 2, 'S': 2, 'I': 4, 'J': 8, 'F': 4, 'D': 8}
CMP = ('Ascending', 'Descending', 'AscendingAbsolute', 'DescendingAbsolute')
ISE = 'java/lang/IllegalStateException'
IAE = 'java/lang/IllegalArgumentException'
NFE = 'java/lang/NumberFormatException'


def b32(n): return BVC(n, 32)
def cls(ty): return T + ty.name + 'Type'
def ext(t, n, signed=True): return BVDom().ext(t, n, signed)
def truth(v): return Ne(v.t, lift(0, v.t.sort))


def lift(n, sort):
    return IntC(n) if sort == 'Int' else BVC(n, sort[1])


# ---------------------------------------------------------------- C01
def byte_of(ty, t, i):
    """i-th least significant byte of a value"""
    return Op('(_ extract %d %d)' % (8 * i + 7, 8 * i), ('BV', 8), t)


class Write(MethodSpec):
    mode = 'bv'; tags = props = ('C01',); mods = ('arg:array',); fresh_arrays = False; pnames = ('array', 'pos', 'value')
    def __init__(self, ty, big):
        self.ty = ty; self.big = big; self.cls = cls(ty); self.name = 'writeBE' if big else 'writeLE'
    def requires(self, c): return fits(c, self.ty)
    def ensures(self, c):
        w = WIDTH[self.ty.d]; a, d = c.array.data, c.old.array.data
        v = c.ex.term(c.argv('value'))
        out = []
        for i in range(w):
            want = byte_of(self.ty, v, w - 1 - i if self.big else i)
            if self.ty.d == 'Z': want = Ite(Eq(v, b32(0)), BVC(0, 8), BVC(1, 8))
            out.append(('byte %d' % i, self.tags, Eq(Sel(a, c.pos + b32(i)), want)))
        k = Fresh('k', ('BV', 32))
        out += [('no other byte changes', self.tags, Implies(Or(k < c.pos, k >= c.pos + b32(w)), Eq(Sel(a, k), Sel(d, k)))),
                ('returns the position after it', self.tags, Eq(c.res, c.pos + b32(w)))]
        return out


def fits(c, ty):
    w = WIDTH[ty.d]
    return [('the value fits at the position', And(c.pos >= b32(0), c.array.len >= b32(w), c.pos <= c.array.len - b32(w)))]


def decoded(ty, a, pos, big):
    w = WIDTH[ty.d]
    bs = [Sel(a, pos + b32(i)) for i in range(w)]
    if not big: bs.reverse()
    t = bs[0]
    for b in bs[1:]: t = Op('concat', ('BV', t.sort[1] + 8), t, b)
    if ty.d in 'BS': return ext(t, 32)
    if ty.d == 'C': return ext(t, 32, False)
    return t


class Read(MethodSpec):
    mode = 'bv'; tags = props = ('C01',); fresh_arrays = False; pnames = ('array', 'pos')
    def __init__(self, ty, big):
        self.ty = ty; self.big = big; self.cls = cls(ty); self.name = 'readBE' if big else 'readLE'
    def requires(self, c): return fits(c, self.ty)
    def ensures(self, c):
        r = c.ex.term(c.resv)
        if self.ty.d == 'Z':
            b = Sel(c.array.data, c.pos)
            return [('1 is true', self.tags, Implies(Eq(b, BVC(1, 8)), Eq(r, b32(1)))), ('0 is false', self.tags, Implies(Eq(b, BVC(0, 8)), Eq(r, b32(0))))]
        return [('decodes the bytes in order', self.tags, Eq(r, decoded(self.ty, c.array.data, c.pos, self.big)))]


class RoundTrip(Prog):
    mode = 'bv'; tags = props = ('C01',)
    def __init__(self, ty, big):
        self.ty = ty; self.big = big; self.name = '%s write%s then read%s' % ((ty.name,) + ('BE' if big else 'LE',) * 2)
        self.uses = (Write(ty, big), Read(ty, big))
    def program(self, ex, st, c):
        a = make_arr(ex, st, 'array', '[B'); p = c.arg(st, 'pos', 'I'); v = c.arg(st, 'value', self.ty.d)
        w = WIDTH[self.ty.d]; n = st.heap[a.n].len
        st.assume(And(p.t >= b32(0), n >= b32(w), p.t <= n - b32(w)))
        e = 'BE' if self.big else 'LE'
        for s, _ in c.only(c.stat(st, cls(self.ty), 'write' + e, '([BI%s)I' % self.ty.d, a, p, v), 'write'):
            for s2, r in c.only(c.stat(s, cls(self.ty), 'read' + e, '([BI)' + self.ty.d, a, p), 'read'):
                c.prove(s2, 'reads back the value written', Eq(ex.term(r), v.t))


# ---------------------------------------------------------------- C02
class Packing(Prog):
    mode = 'bv'; tags = props = ('C02',)
    def __init__(self, name, desc, unpack):
        self.pn = name; self.pd = desc; self.un = unpack; self.name = '%s%s and back' % (name, desc)
    def program(self, ex, st, c):
        ps, ret = parse_desc(self.pd)
        vs = [c.arg(st, 'p%d' % i, d) for i, d in enumerate(ps)]
        for s, packed in c.only(c.stat(st, T + 'Pack', self.pn, self.pd, *vs), self.pn):
            for v, path in zip(vs, self.un):
                outs = [(s, packed)]
                for n, d in path:
                    outs = [o for s2, x in outs for o in c.only(c.stat(s2.fork(), T + 'Pack', n, d, x), n)]
                for s2, x in outs:
                    c.prove(s2, '%s returns its operand' % '.'.join(n for n, d in path), Eq(x.t, v.t))
        ws = [c.arg(st, 'q%d' % i, d) for i, d in enumerate(ps)]
        for s, x in c.only(c.stat(st, T + 'Pack', self.pn, self.pd, *vs), self.pn):
            for s2, y in c.only(c.stat(s, T + 'Pack', self.pn, self.pd, *ws), self.pn):
                c.prove(s2, 'distinct operands pack differently', Implies(Eq(x.t, y.t), And(*[Eq(v.t, w.t) for v, w in zip(vs, ws)])))


LP, IP, SP = '(II)J', '(SS)I', '(BB)S'
HI, LI = ('unpackHiInt', '(J)I'), ('unpackLoInt', '(J)I')
HS, LS = ('unpackHiShort', '(I)S'), ('unpackLoShort', '(I)S')
HB, LB = ('unpackHiByte', '(S)B'), ('unpackLoByte', '(S)B')
PACKS = [Packing('packToLong', '(II)J', [[HI], [LI]]), Packing('packToInt', '(SS)I', [[HS], [LS]]), Packing('packToShort', '(BB)S', [[HB], [LB]]),
         Packing('packToInt', '(BBBB)I', [[HS, HB], [HS, LB], [LS, HB], [LS, LB]])]


# ---------------------------------------------------------------- C03
def lawful(st, name, vs):
    """compareTo of strings and comparables: a total preorder, consistent (trusted; DESIGN.md)"""
    o = lambda t: App('ord_' + name, 'Real', t)
    ts = [v.t for v in vs]
    for a in ts:
        for b in ts:
            r = App(name, 'Int', a, b)
            st.assume(And(Eq(r < 0, o(a) < o(b)), Eq(Eq(r, IntC(0)), Eq(o(a), o(b)))))


def numlt(D, ty, a, b):
    if ty.d in 'FD': return Op('fp.lt', 'Bool', D.fp(ty.d, a), D.fp(ty.d, b))
    return a < b


def mag(D, ty, a):
    if ty.d in 'FD': return D.fabs(ty.d, a)
    n = a.sort[1]; x = D.ext(a, n + 1)
    return Ite(x >= BVC(0, n + 1), x, Sub(BVC(0, n + 1), x))


class Order(Prog):
    tags = props = ('C03',)
    def __init__(self, ty, method):
        self.ty = ty; self.m = method; self.mode = 'int' if ty.ref else 'bv'
        self.name = '%sType %s comparator' % (ty.name, method); self.variant = method
        # the orders heaps start with and sorts are called with
        if method in ('Ascending', 'Descending'): self.tags = self.props = ('C03', 'K01', 'S01')
    allowed = (ISE,)
    def comparator(self, ex, st, c, m):
        if self.ty.name == 'Generic':
            f = {'Ascending': 'Asc', 'Descending': 'Desc'}.get(m)
            return [(st, 'ret', c.field(st, cls(self.ty), f, 'L%s$Cmp;' % cls(self.ty)))] if f else []
        return c.stat(st, cls(self.ty), 'comparatorFor', '(L%sCompareMethod;)L%s$Cmp;' % (T, cls(self.ty)), c.enum(st, T + 'CompareMethod', m))
    def program(self, ex, st, c):
        ty, D = self.ty, ex.dom
        vs = [c.arg(st, n, ty.d) for n in 'xyz']
        if ty.ref: self.axioms_(st, vs)
        outs = self.comparator(ex, st, c, self.m)
        if any(k == 'exc' for s, k, v in outs) and ty.name == 'Bool' and 'Abs' in self.m: return      # no magnitudes of booleans
        zero = lambda r: Eq(r, D.const('I', 0)); neg = lambda r: D.lt(r, D.const('I', 0)); pos = lambda r: D.lt(D.const('I', 0), r)
        for s, fn in c.only(outs, 'comparatorFor'):
            def cmp(s, f, a, b): return c.only(c.apply(s, f, a, b), 'compare')
            x, y, z = vs
            res = [(s, ())]
            for p, q in ((x, x), (x, y), (y, x), (y, z), (x, z)):
                res = [(s3, rs + (r.t,)) for s2, rs in res for s3, r in cmp(s2, fn, p, q)]
            for s2, (xx, xy, yx, yz, xz) in res:
                c.prove(s2, 'equal to itself', zero(xx))
                c.prove(s2, 'antisymmetric and total', And(Eq(neg(xy), pos(yx)), Eq(zero(xy), zero(yx))))
                c.prove(s2, 'transitive', Implies(And(Not(pos(xy)), Not(pos(yz))), And(Not(pos(xz)), Implies(Or(neg(xy), neg(yz)), neg(xz)))))
                self.agrees(ex, s2, c, x.t, y.t, xy, neg, zero, pos)
            # descending is the reverse of ascending
            if self.m.startswith('Desc'):
                for s2, up in c.only(self.comparator(ex, st.fork(), c, self.m.replace('Desc', 'Asc')), 'comparatorFor'):
                    for s3, d in cmp(s2, fn, x, y):
                        for s4, a in cmp(s3, up, y, x):
                            c.prove(s4, 'the reverse of ascending', And(Eq(neg(d.t), neg(a.t)), Eq(zero(d.t), zero(a.t))))
    def axioms_(self, st, vs):
        for n in ('String_compareTo', 'String_compareToIgnoreCase', 'Comparable_compareTo'): lawful(st, n, vs)
        # strings passed as comparables
    def agrees(self, ex, st, c, x, y, r, neg, zero, pos):
        ty, D = self.ty, ex.dom
        up = self.m.startswith('Asc')
        less = neg if up else pos
        if ty.ref:
            n = ('String_compareTo' if 'Abs' not in self.m else 'String_compareToIgnoreCase') if ty.name == 'String' else 'Comparable_compareTo'
            v = App(n, 'Int', x, y)
            nn = And(Ne(x, NULLE), Ne(y, NULLE), Ne(x, y))
            c.prove(st, 'null is last', Implies(And(Ne(x, NULLE), Eq(y, NULLE)), less(r)))
            c.prove(st, 'agrees with compareTo', Implies(nn, And(Eq(less(r), v < 0), Eq(zero(r), Eq(v, IntC(0))))))
            return
        if ty.d == 'Z':
            if 'Abs' not in self.m:
                c.prove(st, 'declared order: true first', Implies(And(Eq(x, b32(1)), Eq(y, b32(0))), less(r)))
                c.prove(st, 'only equal values tie', Implies(zero(r), Eq(x, y)))
            return
        if 'Abs' in self.m: x, y = mag(D, ty, x), mag(D, ty, y)
        c.prove(st, 'agrees with the order of %s' % ('magnitudes' if 'Abs' in self.m else 'numbers'), Implies(numlt(D, ty, x, y), less(r)))
        if ty.d not in 'FD': c.prove(st, 'ties only between equals', Implies(zero(r), Eq(x, y)))
        else:
            nan = lambda t: Op('fp.isNaN', 'Bool', D.fp(ty.d, t))
            c.prove(st, 'ties only between equals', Implies(zero(r), Or(Op('fp.eq', 'Bool', D.fp(ty.d, x), D.fp(ty.d, y)), And(nan(x), nan(y)))))


# ---------------------------------------------------------------- C04
class Predicate(Prog):
    tags = props = ('C04',)
    def __init__(self, ty, method):
        self.ty = ty; self.m = method; self.mode = 'int' if ty.ref else 'bv'
        self.name = '%sType %s predicate' % (ty.name, method); self.variant = method
    allowed = (ISE,)
    def program(self, ex, st, c):
        ty, D = self.ty, ex.dom
        x, y = c.arg(st, 'x', ty.d), c.arg(st, 'y', ty.d)
        if ty.ref: lawful(st, 'String_compareTo', [x, y])
        outs = c.stat(st, cls(ty), 'predicateFor', '(L%sPredicateMethod;)L%s$Pred;' % (T, cls(ty)), c.enum(st, T + 'PredicateMethod', self.m))
        if any(k == 'exc' for s, k, v in outs) and ty.name in ('Bool', 'Generic') and 'EQ' not in self.m: return      # no order
        if any(k == 'exc' for s, k, v in outs) and ty.name in ('Bool', 'Generic') and self.m in ('LTE', 'GTE'): return
        for s, fn in c.only(outs, 'predicateFor'):
            for s2, r in c.only(c.apply(s, fn, x, y), 'test'):
                c.prove(s2, 'is the relation %s' % self.m, Eq(truth(r), self.rel(ex, x.t, y.t)))
    def rel(self, ex, x, y):
        ty, D, m = self.ty, ex.dom, self.m
        if ty.ref:
            eq = objeq(ex, Opq(x), Opq(y))
            if ty.name == 'Generic' or m in ('EQ', 'NEQ'): return Not(eq) if m == 'NEQ' else eq
            v = App('String_compareTo', 'Int', x, y)
            lt = And(Ne(x, y), Ne(x, NULLE), Or(Eq(y, NULLE), v < 0))
            eq = Or(Eq(x, y), And(Ne(x, NULLE), Ne(y, NULLE), Eq(v, IntC(0))))
        elif ty.d in 'FD':
            eq = Op('fp.eq', 'Bool', D.fp(ty.d, x), D.fp(ty.d, y)); lt = Op('fp.lt', 'Bool', D.fp(ty.d, x), D.fp(ty.d, y))
            gt = Op('fp.lt', 'Bool', D.fp(ty.d, y), D.fp(ty.d, x))
            return {'EQ': eq, 'NEQ': Not(eq), 'LT': lt, 'LTE': Or(lt, eq), 'GT': gt, 'GTE': Or(gt, eq)}[m]
        else: eq = Eq(x, y); lt = x < y
        return {'EQ': eq, 'NEQ': Not(eq), 'LT': lt, 'LTE': Or(lt, eq), 'GT': Not(Or(lt, eq)), 'GTE': Not(lt)}[m]


class Bits(MethodSpec):
    mode = 'bv'; tags = props = ('C04',); fresh_arrays = False; pnames = ('flag', 'bits')
    def __init__(self, ty, on):
        self.ty = ty; self.on = on; self.cls = cls(ty); self.name = 'enableBits' if on else 'disableBits'
    def ensures(self, c):
        f, b = c.flag, c.bits; s = f.sort
        w = Op('bvor', s, f, b) if self.on else Op('bvand', s, f, Op('bvxor', s, b, BVC(-1, s[1])))
        return [('exactly the given bits are %s' % ('set' if self.on else 'cleared'), self.tags, Eq(c.res, w))]


# ---------------------------------------------------------------- C05
LD, LT = 'java/time/LocalDate', 'java/time/LocalTime'


class DateBack(Prog):
    tags = props = ('C05',); name = 'LocalDate to int and back'
    kind = LD; frm = 'fromLocalDate'; to = 'toLocalDate'
    get = (('getYear', 0, 9999), ('getMonthValue', 1, 12), ('getDayOfMonth', 1, 31))
    def program(self, ex, st, c):
        s = self.kind.split('/')[-1]
        d = Opq(Fresh('date', 'E')); st.assume(kind_is(ex, d, self.kind))
        fs = [App('%s_%s' % (s, g), 'Int', d.t) for g, lo, hi in self.get]
        for f, (g, lo, hi) in zip(fs, self.get): st.assume(And(f >= lo, f <= hi))
        st.assume(App('valid_' + s, 'Bool', *fs))
        for s2, r in c.only(c.stat(st, T + 'IntType', self.frm, '(L%s;)I' % self.kind, d), self.frm):
            c.prove(s2, 'decimal form', Eq(r.t, fs[0] * 10000 + fs[1] * 100 + fs[2]))
            for s3, b in c.only(c.stat(s2, T + 'IntType', self.to, '(I)L%s;' % self.kind, r), self.to):
                for f, (g, lo, hi) in zip(fs, self.get):
                    c.prove(s3, g + ' is kept', Eq(App('%s_%s' % (s, g), 'Int', ex.term(b)), f))


class TimeBack(DateBack):
    name = 'LocalTime to int and back'; kind = LT; frm = 'fromLocalTime'; to = 'toLocalTime'
    get = (('getHour', 0, 23), ('getMinute', 0, 59), ('getSecond', 0, 59))


class SqlDate(Prog):
    tags = props = ('C05',); name = 'fromSqlDate agrees with fromLocalDate'
    def program(self, ex, st, c):
        d = Opq(Fresh('sqldate', 'E')); st.assume(kind_is(ex, d, 'java/util/Date'))
        l = Opq(Fresh('date', 'E')); st.assume(kind_is(ex, l, LD))
        y, m, k = [App('LocalDate_' + g, 'Int', l.t) for g in ('getYear', 'getMonthValue', 'getDayOfMonth')]
        st.assume(And(y >= 0, y <= 9999, m >= 1, m <= 12, k >= 1, k <= 31))
        # the same calendar day
        st.assume(And(Eq(App('Date_getYear', 'Int', d.t), y - 1900), Eq(App('Date_getMonth', 'Int', d.t), m - 1), Eq(App('Date_getDate', 'Int', d.t), k)))
        for s, a in c.only(c.stat(st, T + 'IntType', 'fromSqlDate', '(Ljava/util/Date;)I', d), 'fromSqlDate'):
            for s2, b in c.only(c.stat(s, T + 'IntType', 'fromLocalDate', '(L%s;)I' % LD, l), 'fromLocalDate'):
                c.prove(s2, 'same int for the same day', Eq(a.t, b.t))


# ---------------------------------------------------------------- C06
NUMS = {'Byte': 'B', 'Short': 'S', 'Integer': 'I', 'Long': 'J', 'Float': 'F', 'Double': 'D'}
PARSE = {'Z': 'parseBoolean', 'B': 'parseByte', 'S': 'parseShort', 'I': 'parseInt', 'J': 'parseLong', 'F': 'parseFloat', 'D': 'parseDouble'}


def narrow(ex, st, frm, to, u):
    """the Java cast of a primitive"""
    D = ex.dom
    if frm == to: return u
    k = lambda t: t if t in 'JFD' else 'I'
    if to in 'BSC':
        if frm in 'JFD': u = D.conv(ex, st, frm, 'I', u)
        return D.conv(ex, st, 'I', to, u)
    if k(frm) == k(to): return u
    return D.conv(ex, st, k(frm), to, u)


def samev(D, d, a, b):
    if d not in 'FD': return Eq(a, b)
    x, y = D.fp(d, a), D.fp(d, b)
    return Or(Eq(a, b), And(Op('fp.isNaN', 'Bool', x), Op('fp.isNaN', 'Bool', y)), And(Op('fp.eq', 'Bool', x, y), Eq(Op('fp.isNegative', 'Bool', x), Op('fp.isNegative', 'Bool', y))))


class Conv(Prog):
    mode = 'bv'; tags = props = ('C06',)
    def __init__(self, ty, what, label, fn='convert'):
        self.ty = ty; self.what = what; self.fn = fn; self.name = '%sType.%s(%s)' % (ty.name, fn, label); self.label = label
        self.allowed = (IAE,)
    def program(self, ex, st, c):
        ty, D = self.ty, ex.dom
        v = Opq(Fresh('value', 'E'))
        desc = '(Ljava/lang/Object;)' + ty.d
        run = lambda s, x: c.stat(s, cls(ty), self.fn, desc, x)
        w = self.what
        if w == 'null':
            for s, r in c.only(run(st, NULL), self.fn): c.prove(s, 'null is the default', Eq(ex.term(r), jdefault(ex, ty)))
        elif w in NUMS:
            st.assume(kind_is(ex, v, 'java/lang/' + w))
            k = NUMS[w]; u = App('unbox_' + w, D.sort(k), v.t)
            if k in 'BSIJ': st.assume(D.inrange(u, k))
            for s, r in c.only(run(st, v), self.fn):
                if ty.d == 'Z': want = Ite(Eq(u, lift(0, u.sort)), b32(0), b32(1))
                else: want = narrow(ex, s, k, ty.d, u)
                c.prove(s, 'the number as a Java cast narrows it', samev(D, ty.d, r.t, want))
        elif w == 'Boolean':
            st.assume(kind_is(ex, v, 'java/lang/Boolean'))
            u = App('unbox_Boolean', D.sort('Z'), v.t); st.assume(D.inrange(u, 'Z'))
            for s, r in c.only(run(st, v), self.fn):
                one, zero = {'C': (b32(ord('t')), b32(ord('f'))), 'J': (BVC(1, 64), BVC(0, 64)), 'F': (b32(0x3f800000), b32(0)), 'D': (BVC(0x3ff << 52, 64), BVC(0, 64))}.get(ty.d, (b32(1), b32(0)))
                c.prove(s, 'true and false', Eq(r.t, Ite(Eq(u, b32(0)), zero, one)))
        elif w == 'Character':
            st.assume(kind_is(ex, v, 'java/lang/Character')); u = App('unbox_Character', D.sort('C'), v.t)
            for s, r in c.only(run(st, v), self.fn): c.prove(s, 'the character', Eq(r.t, u))
        elif w == 'String':
            st.assume(kind_is(ex, v, 'java/lang/String'))
            if ty.d == 'C':
                for s, r in c.only(run(st, v), self.fn):
                    n = App('String_length', D.sort('I'), v.t); s.assume(D.ge0(n))
                    c.prove(s, 'the first character, or the default', Eq(r.t, Ite(Eq(n, b32(0)), b32(0), App('String_charAt', D.sort('C'), v.t, b32(0)))))
                return
            p = PARSE[ty.d]
            for s, k, r in run(st, v):
                if s.dead: continue
                if k == 'exc':
                    c.prove(s, 'rejected only when it does not parse', And(BoolC(ex.exc_is(r.cls, IAE)), Not(App(p + '_ok', 'Bool', v.t)) if ty.d != 'Z' else FALSE))
                else:
                    c.prove(s, 'the parsed value', samev(D, ty.d, r.t, App(p, D.sort(ty.d), v.t)))
                    if ty.d != 'Z': c.prove(s, 'accepted only when it parses', App(p + '_ok', 'Bool', v.t))
        elif w == 'other':
            st.assume(Ne(v.t, NULLE)); k = kind_of(v.t)
            bad = [1, 2, 3, 4, 5, 6, 7, 8, 9] + ([10, 11] if ty.d == 'I' else []) + ([12] if ty.d == 'C' else [])
            for b in bad: st.assume(Ne(k, IntC(b)))
            for s, k2, r in run(st, v):
                if s.dead: continue
                c.prove(s, 'rejected with IllegalArgumentException', BoolC(k2 == 'exc' and ex.exc_is(r.cls, IAE)))
        elif w == 'object':      # String and Generic: any object
            st.assume(Ne(v.t, NULLE))
            for s, r in c.only(run(st, v), self.fn):
                t = ex.term(r)
                if ty.name == 'Generic': c.prove(s, 'the object itself', Eq(t, v.t))
                else:
                    c.prove(s, 'its string form', Eq(t, App('toString', 'E', v.t)))
                    s.assume(kind_is(ex, v, 'java/lang/String')); c.prove(s, 'a string is itself', Eq(t, v.t))
        elif w == 'date':
            st.assume(kind_is(ex, v, LD)); c.spec
            for s, r in c.only(run(st, v), self.fn):
                for s2, q in c.only(c.stat(s, T + 'IntType', 'fromLocalDate', '(L%s;)I' % LD, v), 'fromLocalDate'): c.prove(s2, 'as fromLocalDate', Eq(r.t, q.t))
        elif w == 'time':
            st.assume(kind_is(ex, v, LT))
            for s, r in c.only(run(st, v), self.fn):
                for s2, q in c.only(c.stat(s, T + 'IntType', 'fromLocalTime', '(L%s;)I' % LT, v), 'fromLocalTime'): c.prove(s2, 'as fromLocalTime', Eq(r.t, q.t))


def jdefault(ex, ty):
    if ty.ref: return NULLE
    return BVC(0, 64 if ty.d in 'JD' else 32)


BOX = {'Z': 'Boolean', 'B': 'Byte', 'S': 'Short', 'C': 'Character', 'I': 'Integer', 'J': 'Long', 'F': 'Float', 'D': 'Double'}


class BoxBack(Prog):
    mode = 'bv'; tags = props = ('C06',)
    def __init__(self, ty): self.ty = ty; self.name = '%sType box and unbox' % ty.name
    def program(self, ex, st, c):
        ty = self.ty; bd = ty.d if ty.ref else 'Ljava/lang/%s;' % BOX[ty.d]
        v = c.arg(st, 'value', ty.d)
        if ty.name == 'String': st.assume(Or(Eq(v.t, NULLE), kind_is(ex, v, 'java/lang/String')))
        for s, b in c.only(c.stat(st, cls(ty), 'box', '(%s)%s' % (ty.d, bd), v), 'box'):
            for s2, r in c.only(c.stat(s, cls(ty), 'unbox', '(Ljava/lang/Object;)' + ty.d, b), 'unbox'):
                c.prove(s2, 'unbox(box(v)) is v', Eq(ex.term(r), ex.term(v)))


class CastBack(Prog):
    mode = 'bv'; tags = props = ('C06',)
    def __init__(self, ty): self.ty = ty; self.name = '%sType castToInt and back' % ty.name
    def program(self, ex, st, c):
        ty, D = self.ty, ex.dom
        i = c.arg(st, 'i', 'I')
        nm = 'castTo' + ty.name
        lim = {'B': (-128, 127), 'S': (-32768, 32767), 'C': (0, 65535), 'F': (-2**24, 2**24), 'Z': (0, 1)}.get(ty.d)
        if lim: st.assume(And(b32(lim[0]) <= i.t, i.t <= b32(lim[1])))
        if ty.name != 'Int':
            for s, x in c.only(c.stat(st.fork(), cls(ty), nm, '(I)' + ty.d, i), nm):
                for s2, r in c.only(c.stat(s, cls(ty), 'castToInt', '(%s)I' % ty.d, x), 'castToInt'):
                    c.prove(s2, 'castToInt(%s(i)) is i' % nm, Eq(r.t, i.t))
        if ty.ref: return
        if ty.d in 'BSCIZ':
            v = c.arg(st, 'v', ty.d)
            for s2, r in c.only(c.stat(st.fork(), cls(ty), 'castToInt', '(%s)I' % ty.d, v), 'castToInt'): c.prove(s2, 'castToInt keeps the value', Eq(r.t, v.t))
        else:
            v = c.arg(st, 'v', ty.d)
            if ty.d == 'J': st.assume(And(BVC(-2**31, 64) <= v.t, v.t <= BVC(2**31 - 1, 64))); want = D.ext(v.t, 32)
            else: want = D.conv(ex, st, ty.d, 'I', v.t)
            for s2, r in c.only(c.stat(st.fork(), cls(ty), 'castToInt', '(%s)I' % ty.d, v), 'castToInt'): c.prove(s2, 'castToInt keeps a value that fits', Eq(r.t, want))


# ---------------------------------------------------------------- H08
class HashEq(Prog):
    """the bucket that looking a key up selects: equal keys, same bucket, whatever the (power of two) table size"""
    tags = props = ('H08',); mode = 'bv'
    def __init__(self, ty): self.ty = ty; self.name = '%s key hashing agrees with equality' % ty.name
    def on_load(self, ex, st, fr, r, i): st.g['loads'] = st.g.get('loads', ()) + ((r.n, i),)
    def eqv(self, ex, a, b):
        ty, D = self.ty, ex.dom
        if ty.ref: return objeq(ex, a, b)
        if ty.d in 'FD': return Op('fp.eq', 'Bool', D.fp(ty.d, a.t), D.fp(ty.d, b.t))
        return Eq(a.t, b.t)
    def program(self, ex, st, c):
        ty = self.ty; C_ = P + 'hash/%sIndexedSet' % ty.name
        a, b = c.arg(st, 'a', ty.d), c.arg(st, 'b', ty.d)
        for s, r in c.only(c.apply(st.fork(), c.field(st, cls(ty), 'EqImpl', 'L%s$Eq;' % cls(ty)), a, b), 'areEqual'):
            c.prove(s, 'the default equality is the intended one', Eq(truth(r), self.eqv(ex, a, b)))
        if not ty.ref:      # an equivalence on the keys in use (not-a-number is excluded)
            k = c.arg(st, 'k', ty.d)
            num = lambda v: Not(Op('fp.isNaN', 'Bool', ex.dom.fp(ty.d, v.t))) if ty.d in 'FD' else TRUE
            e = lambda x, y: self.eqv(ex, x, y)
            c.prove(st, 'the equality is an equivalence on the keys in use', And(Implies(num(a), e(a, a)), Implies(e(a, b), e(b, a)), Implies(And(e(a, b), e(b, k)), e(a, k))))
        # equal keys have equal hash codes (the equals/hashCode contract of object keys)
        if ty.ref:
            h = lambda t: App('hashCode', ex.dom.sort('I'), t)
            st.assume(Implies(self.eqv(ex, a, b), Eq(h(ex.term(a)), h(ex.term(b)))))
        # any state of the collection, except that no bucket has an entry, so that a lookup reads only its bucket
        o = ClassSpec(C_).make(ex, st)
        for x in ex.classes.all_fields(C_):
            if x.desc == 'L%s$Hash;' % cls(ty): st.setf(o.n, x.name, c.field(st, cls(ty), 'HashImpl', x.desc))
            if x.desc == 'L%s$Eq;' % cls(ty): st.setf(o.n, x.name, c.field(st, cls(ty), 'EqImpl', x.desc))
            if x.desc == '[I':
                r = st.heap[st.heap[o.n].f[x.name].n]; st.assume(And(nums.is_pow2_bv(r.len), r.len <= b32(2**30)))
                st.heap[st.heap[o.n].f[x.name].n] = Arr(r.ety, r.len, ConstArr(r.data.sort, b32(-1)), None, r.desc)
        st.assume(self.eqv(ex, a, b))
        p1, p2 = [[(s, s.g.get('loads', ())) for s, r in c.only(c.virt(st.fork(), o, C_, 'lookupEntry', '(%s)I' % ty.d, k), 'lookupEntry')] for k in (a, b)]
        c.prove(st, 'a lookup reads the table', BoolC(any(l for s, l in p1)))
        for s1, l1 in p1:
            for s2, l2 in p2:
                s = st.fork()
                for t in s1.pc[len(st.pc):] + s2.pc[len(st.pc):]: s.assume(t)
                ok = len(l1) == len(l2) and all(x[0] == y[0] for x, y in zip(l1, l2))
                c.prove(s, 'equal keys select the same bucket', And(*[Eq(x[1], y[1]) for x, y in zip(l1, l2)]) if ok else FALSE)


class HashInit(Prog):
    """a new collection starts with the type's default hash and equality"""
    tags = props = ('H08', 'H01', 'H04'); mode = 'int'; allowed = (IAE,)
    def __init__(self, cname, ty):
        from .arrays import contracts
        self.ty = ty; self.cname = P + 'hash/' + cname; self.name = 'new %s hashes and compares by default' % cname
        self.uses = contracts(TYPES['Int']) + contracts(ty) + nums.USES
    def program(self, ex, st, c):
        ty = self.ty
        cap = c.arg(st, 'capacity', 'I'); st.assume(And(IntC(1) <= cap.t, cap.t <= IntC(2**29)))
        o = ex.new_obj(st, self.cname)
        for s, k, _ in ex.call(st, 'invokespecial', self.cname, '<init>', '(I)V', [o, cap]):
            if s.dead or k == 'exc': continue
            for what, st_ in (('Hash', 'HashImpl'), ('Eq', 'EqImpl')):
                d = 'L%s$%s;' % (cls(ty), what)
                fs = [s.heap[o.n].f[x.name] for x in ex.classes.all_fields(self.cname) if x.desc == d]
                ok = len(fs) == 1 and isinstance(fs[0], Lam) and ex.fnterm(fs[0]) is ex.fnterm(c.field(s, cls(ty), st_, d))
                c.prove(s, 'uses the default %s' % what, BoolC(ok))


def specs(types):
    out = []
    for ty in types:
        if ty in CODEC:
            for big in (False, True): out += [Write(ty, big), Read(ty, big), RoundTrip(ty, big)]
        for m in CMP: out.append(Order(ty, m))
        for m in ('EQ', 'NEQ', 'LT', 'LTE', 'GT', 'GTE'): out.append(Predicate(ty, m))
        if ty.d in ('B', 'S', 'I', 'J'): out += [Bits(ty, True), Bits(ty, False)]
        for fn in ('convert', 'unbox'):
            out.append(Conv(ty, 'null', 'null', fn))
        if ty.ref: out.append(Conv(ty, 'object', 'object'))
        else:
            for k in NUMS:
                if ty.d == 'Z' and k in ('Long', 'Float', 'Double'): continue
                out.append(Conv(ty, k, k))
                if ty.d not in 'ZC': out.append(Conv(ty, k, k, 'unbox'))
            out += [Conv(ty, 'Boolean', 'Boolean'), Conv(ty, 'String', 'String'), Conv(ty, 'other', 'other')]
            if ty.d == 'Z': out.append(Conv(ty, 'Boolean', 'Boolean', 'unbox'))
            if ty.d == 'C': out.append(Conv(ty, 'Character', 'Character', 'unbox'))
            if ty.d == 'I': out += [Conv(ty, 'date', 'LocalDate'), Conv(ty, 'time', 'LocalTime')]
        out += [BoxBack(ty), CastBack(ty)] + ([HashEq(ty)] if ty.d != 'Z' else [])
    for ty in types:
        if ty.d != 'Z': out += [HashInit(ty.name + 'IndexedSet', ty), HashInit(ty.name + 'IntIndexedMap', ty)]
    return out + PACKS + [DateBack(), TimeBack(), SqlDate()]
