"""I01, I02: the snowflake generator, over bit-vectors.

The fields lastTimestamp and sequence belong to the object's monitor: they are read and written only while it is held, and whoever
takes it finds arbitrary values that satisfy the monitor invariant. Ghost field top is the greatest id issued so far (-1: none)."""
from ..contract import *
from .types import *

ALLI = ('I01', 'I02')
J1, J2 = ('I01',), ('I02',)
B64 = ('BV', 64)
CLS = P + 'id/Snowflake'
GUARDED = ('lastTimestamp', 'sequence')
LS = 'Ljava/util/function/LongSupplier;'


def L(n): return BVC(n, 64)
def ex_(hi, lo, t): return Op('(_ extract %d %d)' % (hi, lo), ('BV', hi - lo + 1), t)
def in41(t): return And(t >= L(0), t < L(1 << 41))
def enc(ts, node, seq): return Op('concat', B64, Op('concat', ('BV', 52), ex_(41, 0, ts), ex_(9, 0, node)), ex_(11, 0, seq))


class SnowCls(ClassSpec):
    ghosts = {'top': B64}
    def __init__(self): super().__init__(CLS)
    def inv(self, o, ex):
        return [('node id of 0 to 1023', ALLI, And(o.nodeId >= L(0), o.nodeId <= L(1023))),
                ('clock is set', ALLI, nonnull(o.clock)),
                ('sequence of 0 to 4095', ALLI, And(o.sequence >= L(0), o.sequence <= L(4095))),
                ('the last issued position is that of the greatest id', ALLI,
                 Or(And(Eq(o.lastTimestamp, L(-1)), Eq(o.top, L(-1))), And(in41(o.lastTimestamp), Eq(o.top, enc(o.lastTimestamp, o.nodeId, o.sequence)))))]


def nonnull(v): return Ne(v, NULLE)


class NM(MethodSpec):
    cls = CLS; mode = 'bv'; tags = ALLI; exc_tags = ALLI; props = ALLI; cspec = SnowCls(); fresh_arrays = False
    def world(self, ex, st, fr): st.g['reading'] = Fresh('reading', B64)
    def clock(self, ex, st, fr):
        """any reading within the 41 bits after the epoch"""
        r = Fresh('clock', B64); o = st.heap[fr.this.n].f
        st.assume(in41(r - o['customEpoch'].t))
        st.g['reading'] = r
        return [(st, 'ret', V('J', r, 'J'))]
    def guard(self, ex, st, r, n):
        if isinstance(r, Loc) and n in GUARDED and self.name != '<init>':
            ex.oblige(st, '%s is used under the monitor' % n, BoolC(st.mon > 0), 'monitor', J1)
    def on_getfield(self, ex, st, fr, r, n): self.guard(ex, st, r, n)
    def on_putfield(self, ex, st, fr, r, n, v): self.guard(ex, st, r, n)


class NextId(NM):
    name = 'nextId'; mods = ('lastTimestamp', 'sequence', 'top'); pure_fail = False
    inv_post = True; endless = True
    ISE = 'java/lang/IllegalStateException'
    def world(self, ex, st, fr):
        super().world(ex, st, fr)
        st.g['entered'] = L(0)
        for g in ('ts0', 'top0'): st.g[g] = Fresh(g, B64)
    def monitor_enter(self, ex, st, fr):
        """whatever other threads made of the guarded fields before"""
        for n in GUARDED: st.setf(fr.this.n, n, V('J', Fresh(n, B64), 'J'))
        st.setf(fr.this.n, '$top', Fresh('top', B64))
        o = C(fr, st).this
        for lab, tags, t in self.cspec.inv(o, ex): st.assume(t)
        st.g['ts0'] = o.lastTimestamp; st.g['top0'] = o.top; st.g['entered'] = st.g['entered'] + L(1)
    def raises(self, c): return {self.ISE: None}
    def exc_ensures(self, c, exc):
        g = c.g
        return [('thrown only when the clock is behind the last issued time', J1, And(Eq(g['entered'], L(1)), g['reading'] - c.this.customEpoch < g['ts0'])),
                ('nothing is issued', ALLI, And(Eq(c.this.top, g['top0']), Or(And(Eq(c.this.lastTimestamp, L(-1)), Eq(c.this.top, L(-1))), And(in41(c.this.lastTimestamp), Eq(c.this.top, enc(c.this.lastTimestamp, c.this.nodeId, c.this.sequence))))))]
    def witness(self, c): return {'top': c.res}
    def ensures(self, c):
        o, g, r = c.this, c.g, c.res
        return [('the monitor is taken once', J1, Eq(g['entered'], L(1))),
                ('greater than every id issued before', J1, r > g['top0']),
                ('not for an earlier time than the last', J1, Op('bvlshr', B64, r, L(22)) >= g['ts0']),
                ('positive', J2, r >= L(0)),
                ('time of issue', J2, Eq(Op('bvlshr', B64, r, L(22)) + o.customEpoch, g['reading'])),
                ('node id', ALLI, Eq(Op('concat', B64, BVC(0, 54), ex_(21, 12, r)), o.nodeId)),
                ('sequence number', J2, Eq(Op('concat', B64, BVC(0, 52), ex_(11, 0, r)), o.sequence))]
    @property
    def loops(self):
        def inv(c, Lv):
            n = Lv.nextTimestamp
            return [('time', ALLI, And(in41(n), Eq(n + c.this.customEpoch, c.g['reading'])))]
        return [LoopSpec('wait for the next millisecond', 'waitNextMillis', vars={'nextTimestamp': 'J'}, assigns=('nextTimestamp',), inv=inv)]


class Parse(NM):
    name = 'parse'; pnames = ('id',); tags = J2; props = J2; exc_tags = J2
    def ensures(self, c):
        i, o = c.id, c.this; d = c.res
        el = lambda k: Sel(d.data, BVC(k, 32))
        return [('three numbers', J2, Eq(d.len, BVC(3, 32))),
                ('time', J2, Implies(i >= L(0), Eq(el(0), Op('bvashr', B64, i, L(22)) + o.customEpoch))),
                ('node id', J2, Eq(el(1), Op('concat', B64, BVC(0, 54), ex_(21, 12, i)))),
                ('sequence number', J2, Eq(el(2), Op('concat', B64, BVC(0, 52), ex_(11, 0, i))))]


class Init(NM):
    name = '<init>'; inv_pre = False
    def requires(self, c): return [('a clock', nonnull(c.epochMillisProvider))]
    def witness(self, c): return {'top': L(-1)}
    def cast_ok(self, ex, st, fr, v, cls): return isinstance(v, Opq) and v.t is fr.args['epochMillisProvider'].t and cls == LS[1:-1]
    def raises(self, c): return {'java/lang/IllegalArgumentException': Or(c.nodeId < L(0), c.nodeId > L(1023))}
    def ensures(self, c):
        return [('node id as given', ALLI, Eq(c.this.nodeId, c.nodeId)), ('clock as given', ALLI, Eq(c.this.clock, c.epochMillisProvider))] + self.more(c)
    def more(self, c): return []


class Init3(Init):
    desc = '(JJ' + LS + ')V'; pnames = ('nodeId', 'customEpoch', 'epochMillisProvider')
    def more(self, c): return [('epoch as given', ALLI, Eq(c.this.customEpoch, c.customEpoch))]


class Init2(Init):
    desc = '(J' + LS + ')V'; pnames = ('nodeId', 'epochMillisProvider')


class Factory(MethodSpec):
    """a generator made from a node name"""
    cls = CLS; name = 'snowflake'; desc = '(' + LS + 'Ljava/util/function/Supplier;)L%s;' % CLS; pnames = ('epochMillisProvider', 'uniqueNodeNameSupplier')
    mode = 'bv'; tags = J2; props = J2; exc_tags = J2; fresh_arrays = False
    def world(self, ex, st, fr):
        for v in fr.args.values(): st.assume(nonnull(v.t))
    def cast_ok(self, ex, st, fr, v, cls): return True        # LongSupplier and String, as declared by the suppliers
    def raises(self, c): return {'java/lang/NullPointerException': None}      # a supplier without a name
    def ensures(self, c):
        o = c.res
        return [('node id of 0 to 1023', J2, And(o.nodeId >= L(0), o.nodeId <= L(1023))), ('clock as given', J2, Eq(o.clock, c.epochMillisProvider)),
                ('nothing issued', J2, And(Eq(o.lastTimestamp, L(-1)), Eq(o.sequence, L(0))))]


class Writers(Lemma):
    """nothing but nextId and the constructors writes the fields"""
    name = 'writers of the generator'; tags = ALLI; props = ALLI; mode = 'bv'
    def obligations(self, ex):
        cf = ex.classes.get(CLS)
        def writes(m, seen):
            if m is None or m.code is None or m.key in seen: return set()
            seen.add(m.key); r = set()
            for i in m.code.values():
                if i.op == 'putfield' and i.a[0] == CLS: r.add(i.a[1])
                if i.op.startswith('invoke') and i.op != 'invokedynamic' and i.a[0] == CLS and i.a[1] != '<init>': r |= writes(cf.mmap.get(i.a[1] + i.a[2]), seen)
            return r
        out = []
        for m in cf.methods:
            if m.name in ('<init>', 'nextId') or m.acc & 2: continue
            out.append(('%s writes no field' % m.name, ALLI, [], BoolC(not writes(m, set()))))
        return out


def specs(types): return [Init3(), Init2(), Factory(), NextId(), Parse(), Writers()]


def tier_specs(tier, prop): return [s for s in specs(None) if prop in s.props]
