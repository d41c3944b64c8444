"""Facts of machine and integer arithmetic the generator supplies to the obligations, each proved here on its own terms."""
from ..contract import *
from .types import *

D64 = ('FP', 11, 53)
B32, B64 = ('BV', 32), ('BV', 64)


def fp_of(t): return Op('(_ to_fp 11 53)', D64, Op('RNE', 'RoundingMode'), t)
def to_int(f): return Op('(_ fp.to_sbv 32)', B32, Op('RTZ', 'RoundingMode'), f)
def wide(t): return Op('(_ sign_extend 32)', B64, t)


class ScaleLemma(Lemma):
    """0 <= (int) (n * f) <= n for every n = 2^s and every double 0 < f <= 1"""
    name = 'a fraction of a power of two'; mode = 'bv'
    def __init__(self, tags): self.tags = self.props = tuple(tags); super().__init__()
    def obligations(self, ex):
        f = Fresh('f', D64); out = []
        zero, one = fp_of(BVC(0, 32)), fp_of(BVC(1, 32))
        for s in range(31):
            n = BVC(1 << s, 32)
            r = to_int(Op('fp.mul', D64, Op('RNE', 'RoundingMode'), fp_of(n), f))
            out.append(('n = 2^%d' % s, self.tags, [Op('fp.lt', 'Bool', zero, f), Op('fp.leq', 'Bool', f, one)], And(BVC(0, 32) <= r, r <= n)))
        return out


class CeilLemma(Lemma):
    """r = (int) Math.ceil(n / (double) d) is the least r with r * d >= n, for n >= 0 and every d = 2^s"""
    name = 'rounded up quotient by a power of two'; mode = 'bv'; tags = props = ('T01', 'T02')
    def obligations(self, ex):
        n = Fresh('n', B32); out = []
        for s in range(31):
            d = 1 << s
            q = Op('fp.div', D64, Op('RNE', 'RoundingMode'), fp_of(n), fp_of(BVC(d, 32)))
            r = to_int(Op('fp.roundToIntegral', D64, Op('RTP', 'RoundingMode'), q))
            p = Mul(wide(r), BVC(d, 64))
            out.append(('d = 2^%d' % s, self.tags, [BVC(0, 32) <= n],
                        And(BVC(0, 32) <= r, r <= n, wide(n) <= p, Or(Eq(r, BVC(0, 32)), Sub(p, BVC(d, 64)) < wide(n)))))
        return out


class ProductLemma(Lemma):
    """the facts about products and quotients of integers that the store contracts use"""
    name = 'products and quotients'; mode = 'int'; tags = props = ('T01', 'T02')
    def obligations(self, ex):
        x, a, b = Fresh('x', 'Int'), Fresh('a', 'Int'), Fresh('b', 'Int')
        m = lambda p, q: Op('*', 'Int', p, q)
        q, r = Op('div', 'Int', a, b), Op('mod', 'Int', a, b)
        I = IntC(0)
        return [('commutes', self.tags, [], Eq(m(a, b), m(b, a))),
                ('monotone', self.tags, [x >= 1, a < b], m(x, a) + x <= m(x, b)),
                ('not negative', self.tags, [x >= 0, a >= 0], m(x, a) >= 0),
                ('by zero', self.tags, [Eq(a, I)], Eq(m(x, a), I)),
                ('quotient and remainder', self.tags, [a >= 0, b >= 1], And(Eq(a, m(b, q) + r), r >= 0, r < b, r <= a, q >= 0, q <= a))]


class MaskLemma(Lemma):
    """the bitwise and of two ints is within either of them that is not negative"""
    name = 'bounds of a bitwise and'; mode = 'bv'
    def __init__(self, tags): self.tags = self.props = tuple(tags); super().__init__()
    def obligations(self, ex):
        out = []
        for n in (32, 64):
            a, b = Fresh('a', ('BV', n)), Fresh('b', ('BV', n)); t = Op('bvand', a.sort, a, b); z = BVC(0, n)
            out.append(('%d bits' % n, self.tags, [z <= b], And(z <= t, t <= b)))
        return out
