"""N01: capacity arithmetic, decided over bit-vectors; the integer-mode contract restates the same facts."""
from ..contract import *
from .types import *

N = ('N01',)


def is_pow2_bv(t):
    n = t.sort[1]
    return And(Lt(BVC(0, n), t), Eq(Op('bvand', t.sort, t, Sub(t, BVC(1, n))), BVC(0, n)))


def pow2(t): return App('ispow2', 'Bool', t)


class NextPow2(MethodSpec):
    cls = P + 'NumUtils'; name = 'nextPowerOf2'; mode = 'bv'; tags = N; props = N; pnames = ('v',); fresh_arrays = False
    def requires(self, c):
        v = c.v
        if c.ex.mode == 'int': return [('1 <= v <= 2^30', And(v >= 1, v <= 2**30))]
        return [('1 <= v <= 2^30', And(BVC(1, 32) <= v, v <= BVC(2**30, 32)))]
    def ensures(self, c):
        v, r = c.v, c.res
        if c.ex.mode == 'int':
            return [('power of two', N, pow2(r)), ('least', N, And(r >= v, r >= 1, r <= 2**30, Or(Eq(r, IntC(1)), r < v + v), Implies(v <= 2**29, r <= 2**29)))]
        return [('power of two', N, is_pow2_bv(r)),
                ('not below the argument', N, v <= r),
                ('at most 2^30', N, r <= BVC(2**30, 32)), ('at most 2^29 for arguments up to 2^29', N, Implies(v <= BVC(2**29, 32), r <= BVC(2**29, 32))),
                ('least: half of it is below the argument', N, Or(Eq(r, BVC(1, 32)), Op('bvashr', r.sort, r, BVC(1, 32)) < v))]


MAXCAP = 2**29


class NewCapacity(MethodSpec):
    cls = P + 'CapacityCalculator'; name = 'calculateNewCapacity'; mode = 'bv'; tags = N; props = N
    pnames = ('owner', 'capacity', 'threshold'); fresh_arrays = False
    RE = P + 'exception/ResizeException'
    def requires(self, c):
        if c.ex.mode == 'int': return [('capacity is a power of two', And(c.capacity >= 1, pow2(c.capacity)))]
        return [('capacity is a power of two', is_pow2_bv(c.capacity)), ('owner', Ne(c.owner, NULLE))]
    def args_make(self, ex, st, n, d): return Junk('java/lang/Object') if n == 'owner' else super().args_make(ex, st, n, d)
    def pre_terms(self, c):
        return [(l, t) for l, t in self.requires_(c)]
    def requires_(self, c):
        if c.ex.mode == 'int': return [('capacity is a power of two', And(c.capacity >= 1, pow2(c.capacity)))]
        return [('capacity is a power of two', is_pow2_bv(c.capacity))]
    def raises(self, c):
        k = lambda v: lift(v, c.capacity.sort)
        return {self.RE: Or(c.capacity > k(MAXCAP), And(Eq(c.capacity, k(MAXCAP)), Eq(c.threshold, k(MAXCAP))))}
    def ensures(self, c):
        k = lambda v: lift(v, c.capacity.sort)
        cap, r = c.capacity, c.res
        out = [('doubles below the maximum', N, Implies(cap < k(MAXCAP), Eq(r, cap + cap))),
               ('stays at the maximum', N, Implies(Eq(cap, k(MAXCAP)), Eq(r, cap))),
               ('never shrinks or overflows', N, And(r >= cap, r <= k(MAXCAP)))]
        out.append(('power of two', N, pow2(r) if c.ex.mode == 'int' else is_pow2_bv(r)))
        return out


NEXTP2 = NextPow2()
NEWCAP = NewCapacity()
USES = (NEXTP2, NEWCAP)


def specs(types=None):
    return [NEXTP2, NEWCAP]
