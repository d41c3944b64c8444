"""Numeric domains. IntDom: exact wrap-around over mathematical integers. BVDom: bit-vectors and IEEE floats."""
from fractions import Fraction
import struct
from .term import *

RANGE = {'Z': (0, 1), 'B': (-128, 127), 'S': (-32768, 32767), 'C': (0, 65535),
         'I': (-2**31, 2**31 - 1), 'J': (-2**63, 2**63 - 1)}
BITS = {'Z': 32, 'B': 32, 'S': 32, 'C': 32, 'I': 32, 'J': 64}
SUB = {'Z': 'ZBSCI', 'B': 'BSI', 'S': 'SI', 'C': 'CI', 'I': 'I', 'J': 'J'}   # value of type k also fits these


class Unsupported(Exception): pass


# ---------------------------------------------------------------- values
class V:
    """primitive: kind I/J/F/D (computational), jt: narrowest known Java type"""
    __slots__ = ('kind', 't', 'jt')
    def __init__(self, kind, t, jt=None):
        self.kind = kind; self.t = t; self.jt = jt or kind
    def __repr__(self): return 'V(%s,%s)' % (self.jt, self.t)


class Ref: __slots__ = ()
class Null(Ref):
    def __repr__(self): return 'null'
NULL = Null()
class Loc(Ref):
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return '@%d' % self.n
class Opq(Ref):
    """opaque element reference, a term of sort E"""
    __slots__ = ('t', 'info')
    def __init__(self, t, info=None): self.t = t; self.info = info
    def __repr__(self): return 'Opq(%s)' % self.t
class Fn(Ref):
    """opaque functional object, a term of sort Fn"""
    __slots__ = ('t', 'cls')
    def __init__(self, t, cls): self.t = t; self.cls = cls
    def __repr__(self): return 'Fn(%s)' % self.t
class Lam(Ref):
    """known lambda: implementation method handle and captured values"""
    __slots__ = ('iface', 'kind', 'ref', 'cap', 'meth')
    def __init__(self, iface, kind, ref, cap, meth):
        self.iface = iface; self.kind = kind; self.ref = ref; self.cap = cap; self.meth = meth
    def __repr__(self): return 'Lam(%s.%s)' % (self.ref[0].split('/')[-1], self.ref[1])
class Row(Ref):
    __slots__ = ('loc', 'idx')
    def __init__(self, loc, idx): self.loc = loc; self.idx = idx
class Exc(Ref):
    __slots__ = ('cls',)
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return 'Exc(%s)' % self.cls
class Str(Ref):
    """string constant (s) or some non-null string (None)"""
    __slots__ = ('s',)
    def __init__(self, s=None): self.s = s
class Cls(Ref):
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
class Junk(Ref):
    """a non-null object of no interest"""
    __slots__ = ('cls',)
    def __init__(self, cls): self.cls = cls


NULLE = Const('dflt!null', 'E')
NULLF = Const('nullF', 'Fn')
_dlit = {}      # literal term id -> Fraction


class IntDom:
    name = 'int'
    idx = 'Int'
    def sort(self, jt):
        if jt in 'ZBSCIJ': return 'Int'
        if jt in 'FD': return 'E'
        return 'E'
    def elem(self, jt): return self.sort(jt)
    def const(self, kind, v): return IntC(v)
    def flit(self, kind, v, bits):
        t = Const('dflt!%s%x' % (kind, bits), 'E')
        _dlit[t.id] = Fraction(v) if v == v and abs(v) != float('inf') else None
        return t
    def inrange(self, t, jt):
        lo, hi = RANGE[jt]
        return And(IntC(lo) <= t, t <= IntC(hi))
    def default(self, jt):
        if jt in 'ZBSCIJ': return IntC(0)
        if jt in 'FD': return self.flit(jt, 0.0, 0)
        return NULLE

    # exact wrap
    def wrap(self, ex, st, t, jt):
        lo, hi = RANGE[jt]
        if t.op == 'int':
            n = hi - lo + 1
            return IntC((t.data - lo) % n + lo)
        if ex.valid(st, And(IntC(lo) <= t, t <= IntC(hi))):
            return t
        n = hi - lo + 1
        if t.op == 'sum' and sum(abs(k) for k in t.data[1]) <= 2:   # one wrap at most for + and -
            return Ite(t > IntC(hi), t - n, Ite(t < IntC(lo), t + n, t))
        return ModE(t - lo, n) + lo

    def arith(self, ex, st, op, kind, a, b):
        if kind in 'FD': return self.farith(ex, st, op, kind, a, b)
        jt = kind
        if op == 'add': return self.wrap(ex, st, a + b, jt)
        if op == 'sub': return self.wrap(ex, st, a - b, jt)
        if op == 'mul': return self.wrap(ex, st, self.mul(ex, st, a, b), jt)
        if op in ('shl', 'shr', 'ushr'):
            bits = BITS[kind]
            if b.op == 'int':
                k = b.data % bits
                if op == 'shl': return self.wrap(ex, st, a * (1 << k), jt)
                if op == 'shr': return DivE(a, 1 << k) if k else a
                if k == 0: return a
                if ex.valid(st, a >= 0): return DivE(a, 1 << k)
                return DivE(Ite(a >= 0, a, a + (1 << bits)), 1 << k)
            if a.op == 'int' and a.data == 1 and op == 'shl':
                return App('p2_%s' % kind, 'Int', b)
            if op == 'ushr' and ex.valid(st, a >= 0): op = 'shr'
            return App('%s_%s' % (op, kind), 'Int', a, b)
        if op == 'and':
            if is_const(a) and is_const(b): return IntC(a.data & b.data)
            if a.op == 'int': a, b = b, a
            if b.op == 'int':
                if b.data == 0: return IntC(0)
                if b.data == -1: return a
                m = b.data
                if m > 0 and (m & (m + 1)) == 0: return ModE(a, m + 1)
            return ex.spec_and(st, a, b, kind)
        if op in ('or', 'xor'):
            if is_const(a) and is_const(b): return IntC(a.data | b.data if op == 'or' else a.data ^ b.data)
            return App('%s_%s' % (op, kind), 'Int', *sorted((a, b), key=lambda x: x.id))
        if op in ('div', 'rem'):
            # truncating division
            if is_const(a) and is_const(b):
                q = abs(a.data) // abs(b.data); q = q if (a.data < 0) == (b.data < 0) else -q
                return self.wrap(ex, st, IntC(q if op == 'div' else a.data - q * b.data), jt)
            if b.op == 'int' and b.data > 0:
                k = b.data
                if ex.valid(st, a >= 0): q = DivE(a, k)
                else: q = Ite(a >= 0, DivE(a, k), -DivE(-a, k))
                return q if op == 'div' else a - q * k
            q, r = App('div_' + kind, 'Int', a, b), App('rem_' + kind, 'Int', a, b)
            st.assume(Implies(And(a >= 0, b > 0), And(q >= 0, q <= a, r >= 0, r < b, r <= a, Eq(a, self.mul(ex, st, b, q) + r))))
            st.assume(And(self.inrange(q, kind), self.inrange(r, kind)))
            return q if op == 'div' else r
        raise Unsupported('int op ' + op)

    def mul(self, ex, st, a, b):
        if a.op == 'int' or b.op == 'int': return a * b
        return ex.spec_mul(st, a, b)

    def neg(self, ex, st, kind, a):
        if kind in 'FD':
            return Op('-', 'Real', a) if a.sort == 'Real' else App('fneg', 'E', a)
        return self.wrap(ex, st, -a, kind)

    def toreal(self, t):
        if t.sort == 'Real': return t
        f = _dlit.get(t.id)
        if f is None: return None
        r = RealC(f.numerator)
        return r if f.denominator == 1 else Op('/', 'Real', RealC(f.numerator), RealC(f.denominator))

    def farith(self, ex, st, op, kind, a, b):
        if a.sort == 'Real' or b.sort == 'Real':
            a, b = self.toreal(a), self.toreal(b)
            if a is None or b is None: raise Unsupported('mixed double arithmetic')
            return App('f' + op, 'Real', a, b)     # rounded; facts are added where the result is used
        return App('f%s_%s' % (op, kind), 'E', a, b)

    def fcmp(self, ex, kind, a, b, nanres):
        if a.sort == 'Real' or b.sort == 'Real':
            a, b = self.toreal(a), self.toreal(b)
            if a is None or b is None: raise Unsupported('mixed double comparison')
            return Ite(b < a, IntC(1), Ite(Eq(a, b), IntC(0), IntC(-1)))
        x, y = _dlit.get(a.id), _dlit.get(b.id)
        if x is not None and y is not None: return IntC(1 if x > y else 0 if x == y else -1)
        return Ite(App('fgt_' + kind, 'Bool', a, b), IntC(1),
                   Ite(App('feq_' + kind, 'Bool', a, b), IntC(0),
                       Ite(App('fgt_' + kind, 'Bool', b, a), IntC(-1), IntC(nanres))))

    def lcmp(self, a, b): return Ite(b < a, IntC(1), Ite(Eq(a, b), IntC(0), IntC(-1)))
    def lt(self, a, b): return a < b

    def conv(self, ex, st, frm, to, a):
        """conversion to 'B','C','S','I','J','F','D'"""
        if to in 'BCSIJ' and frm in 'IJ':
            return self.wrap(ex, st, a, to)
        if frm in 'IJ' and to in 'FD':
            if frm == 'I' and to == 'D': return Op('to_real', 'Real', a)      # exact
            return App('rounded_%s%s' % (frm, to), 'Real', a)
        if frm in 'FD' and to == 'I' and a.sort == 'Real':
            return ex.spec_d2i(st, a)
        if frm in 'FD' and to in 'FD' and a.sort == 'Real': return a if frm == to or to == 'D' else App('rounded_DF', 'Real', a)
        return App('conv_%s%s' % (frm, to), 'Int' if to in 'IJ' else 'E', a)

    def load(self, ex, st, jt, t): return t
    def store(self, ex, st, jt, v):
        if jt in 'BSC' and jt not in SUB.get(v.jt, ''): return self.wrap(ex, st, v.t, jt)
        if jt == 'Z' and v.jt != 'Z': return ModE(v.t, 2)
        return v.t
    def ge0(self, t): return t >= 0


def _fpsort(kind): return ('FP', 8, 24) if kind == 'F' else ('FP', 11, 53)


class BVDom:
    name = 'bv'
    idx = ('BV', 32)
    def sort(self, jt):
        if jt in 'ZBSCI': return ('BV', 32)
        if jt == 'J': return ('BV', 64)
        if jt == 'F': return ('BV', 32)          # raw bits: NaN payloads are kept by moves, as in the JVM
        if jt == 'D': return ('BV', 64)
        return 'E'
    def fp(self, kind, t):
        s = _fpsort(kind)
        return Op('(_ to_fp %d %d)' % s[1:], s, t)
    def frombits(self, st, kind, f):
        b = Fresh('bits', self.sort(kind)); st.assume(Eq(self.fp(kind, b), f)); return b
    def fabs(self, kind, t):
        n = t.sort[1]; return Op('bvand', t.sort, t, BVC((1 << (n - 1)) - 1, n))
    def elem(self, jt):
        return {'Z': ('BV', 8), 'B': ('BV', 8), 'S': ('BV', 16), 'C': ('BV', 16)}.get(jt) or self.sort(jt)
    def const(self, kind, v): return BVC(v, 64 if kind == 'J' else 32)
    def flit(self, kind, v, bits):
        return BVC(bits, 32 if kind == 'F' else 64)
    def inrange(self, t, jt):
        if jt in 'IJFD': return TRUE
        lo, hi = RANGE[jt]
        return And(Le(BVC(lo, 32), t), Le(t, BVC(hi, 32)))
    def default(self, jt):
        if jt in 'FD': return self.flit(jt, 0.0, 0)
        if jt in 'ZBSCIJ': return BVC(0, self.elem(jt)[1])
        return NULLE
    def arith(self, ex, st, op, kind, a, b):
        n = BITS.get(kind)
        if kind in 'FD':
            f = {'add': 'fp.add', 'sub': 'fp.sub', 'mul': 'fp.mul', 'div': 'fp.div'}.get(op)
            if f is None: raise Unsupported('float ' + op)
            return self.frombits(st, kind, Op(f, _fpsort(kind), Op('RNE', 'RoundingMode'), self.fp(kind, a), self.fp(kind, b)))
        if op == 'add': return Add(a, b)
        if op == 'sub': return Sub(a, b)
        if op == 'mul': return Mul(a, b)
        if op in ('shl', 'shr', 'ushr'):
            # shift distance is an int
            if b.sort != a.sort: b = Op('(_ zero_extend 32)', a.sort, b) if not is_const(b) else BVC(b.data, n)
            d = BVC(b.data & (n - 1), n) if is_const(b) else Op('bvand', a.sort, b, BVC(n - 1, n))
            if is_const(a) and is_const(d):
                k = d.data
                if op == 'shl': return BVC(a.data << k, n)
                if op == 'shr': return BVC(val(a) >> k, n)
                return BVC(a.data >> k, n)
            return Op({'shl': 'bvshl', 'shr': 'bvashr', 'ushr': 'bvlshr'}[op], a.sort, a, d)
        if op in ('and', 'or', 'xor'):
            if is_const(a) and is_const(b):
                return BVC({'and': a.data & b.data, 'or': a.data | b.data, 'xor': a.data ^ b.data}[op], n)
            return Op('bv' + op, a.sort, a, b)
        if op == 'div':
            if is_const(a) and is_const(b) and b.data:
                x, y = val(a), val(b); q = abs(x) // abs(y)
                return BVC(q if (x < 0) == (y < 0) else -q, n)
            return Op('bvsdiv', a.sort, a, b)
        if op == 'rem': return Op('bvsrem', a.sort, a, b)
        raise Unsupported(op)
    def neg(self, ex, st, kind, a):
        if kind in 'FD': return Op('bvxor', a.sort, a, BVC(1 << (a.sort[1] - 1), a.sort[1]))
        return Sub(BVC(0, a.sort[1]), a)
    def fcmp(self, ex, kind, a, b, nanres):
        c = lambda v: BVC(v, 32)
        a, b = self.fp(kind, a), self.fp(kind, b)
        return Ite(Op('fp.gt', 'Bool', a, b), c(1), Ite(Op('fp.eq', 'Bool', a, b), c(0),
                   Ite(Op('fp.lt', 'Bool', a, b), c(-1), c(nanres))))
    def lcmp(self, a, b):
        return Ite(Lt(b, a), BVC(1, 32), Ite(Eq(a, b), BVC(0, 32), BVC(-1, 32)))
    def lt(self, a, b): return Lt(a, b)
    def ext(self, t, n, signed=True):
        m = t.sort[1]
        if n == m: return t
        if n > m:
            if is_const(t): return BVC(val(t) if signed else t.data, n)
            return Op('(_ %s_extend %d)' % ('sign' if signed else 'zero', n - m), ('BV', n), t)
        if is_const(t): return BVC(t.data, n)
        return Op('(_ extract %d 0)' % (n - 1), ('BV', n), t)
    def conv(self, ex, st, frm, to, a):
        if frm in 'IJ' and to in 'BCS':
            w = 8 if to == 'B' else 16
            return self.ext(self.ext(a, w), 32, to != 'C')
        if frm in 'IJ' and to in 'IJ': return self.ext(a, 64 if to == 'J' else 32)
        if frm in 'IJ' and to in 'FD':
            s = _fpsort(to)
            return self.frombits(st, to, Op('(_ to_fp %d %d)' % s[1:], s, Op('RNE', 'RoundingMode'), a))
        if frm in 'FD' and to in 'FD':
            if frm == to: return a
            s = _fpsort(to)
            return self.frombits(st, to, Op('(_ to_fp %d %d)' % s[1:], s, Op('RNE', 'RoundingMode'), self.fp(frm, a)))
        if frm in 'FD' and to in 'IJ':
            n = 32 if to == 'I' else 64
            a = self.fp(frm, a)
            s = a.sort
            # Java: NaN -> 0, saturating, truncation
            lim = float(2 ** (n - 1))
            bits = struct.unpack('>I', struct.pack('>f', lim))[0] if frm == 'F' else struct.unpack('>Q', struct.pack('>d', lim))[0]
            hi = self.fp(frm, self.flit(frm, lim, bits))
            return Ite(Op('fp.isNaN', 'Bool', a), BVC(0, n),
                       Ite(Op('fp.geq', 'Bool', a, hi), BVC(2 ** (n - 1) - 1, n),
                           Ite(Op('fp.leq', 'Bool', a, Op('fp.neg', s, hi)), BVC(-2 ** (n - 1), n),
                               Op('(_ fp.to_sbv %d)' % n, ('BV', n), Op('RTZ', 'RoundingMode'), a))))
        raise Unsupported('conv %s%s' % (frm, to))
    def load(self, ex, st, jt, t):
        if jt in 'ZBS': return self.ext(t, 32, True)
        if jt == 'C': return self.ext(t, 32, False)
        return t
    def store(self, ex, st, jt, v):
        if jt in 'ZB': return self.ext(v.t, 8) if jt == 'B' else self.ext(Op('bvand', v.t.sort, v.t, BVC(1, 32)) if not is_const(v.t) else BVC(v.t.data & 1, 32), 8)
        if jt in 'SC': return self.ext(v.t, 16)
        return v.t
    def ge0(self, t): return Le(BVC(0, t.sort[1]), t)
