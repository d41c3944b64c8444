"""Forward symbolic execution of JVM bytecode with loops cut by invariants and calls cut by contracts."""
import struct, sys
from .term import *
from .dom import *
from .classfile import loops, parse_desc, ACC_SYNC, ACC_ABSTRACT, ACC_NATIVE, ACC_FINAL, ACC_STATIC
from . import jdk

sys.setrecursionlimit(20000)

UNROLL = 140


class Obj:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f


class Arr:
    """ety: element type ('I','Z',.. or 'E' for references); data: term, or elems: list of values"""
    __slots__ = ('ety', 'len', 'data', 'elems', 'desc')
    def __init__(self, ety, ln, data, elems=None, desc=None):
        self.ety = ety; self.len = ln; self.data = data; self.elems = elems; self.desc = desc


class Mat:
    """array of arrays with rows of one length; nn[i]: row i is present"""
    __slots__ = ('ety', 'len', 'rowlen', 'data', 'nn', 'moved')
    def __init__(self, ety, ln, rowlen, data, nn, moved=False):
        self.ety = ety; self.len = ln; self.rowlen = rowlen; self.data = data; self.nn = nn; self.moved = moved


class State:
    __slots__ = ('heap', 'pc', 'g', 'dead', 'log', 'mon', 'forks')
    def __init__(self):
        self.heap = {}; self.pc = []; self.g = {}; self.dead = False; self.log = (); self.mon = 0; self.forks = 0      # forks: undecided branches taken
    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.pc = list(self.pc); s.g = dict(self.g); s.dead = self.dead; s.log = self.log
        s.mon = self.mon; s.forks = self.forks
        return s
    def assume(self, t):
        if t is TRUE: return
        if t is FALSE: self.dead = True
        if t.op == 'and':
            for a in t.args: self.assume(a)
            return
        self.pc.append(t)
    def setf(self, loc, name, v):
        o = self.heap[loc]
        f = dict(o.f); f[name] = v
        self.heap[loc] = Obj(o.cls, f)


class Obl:
    __slots__ = ('name', 'tags', 'hyps', 'goal', 'where', 'kind', 'expect')
    def __init__(self, name, tags, hyps, goal, where, kind, expect='valid'):
        self.name = name; self.tags = tags; self.hyps = hyps; self.goal = goal; self.where = where; self.kind = kind
        self.expect = expect


class Frame:
    def __init__(self, m, key):
        self.m = m; self.key = key


JDKEXC = {
    'java/lang/NullPointerException': 'java/lang/RuntimeException',
    'java/lang/ArrayIndexOutOfBoundsException': 'java/lang/IndexOutOfBoundsException',
    'java/lang/IndexOutOfBoundsException': 'java/lang/RuntimeException',
    'java/lang/NegativeArraySizeException': 'java/lang/RuntimeException',
    'java/lang/ArithmeticException': 'java/lang/RuntimeException',
    'java/lang/ClassCastException': 'java/lang/RuntimeException',
    'java/lang/IllegalArgumentException': 'java/lang/RuntimeException',
    'java/lang/NumberFormatException': 'java/lang/IllegalArgumentException',
    'java/lang/IllegalStateException': 'java/lang/RuntimeException',
    'java/lang/UnsupportedOperationException': 'java/lang/RuntimeException',
    'java/util/NoSuchElementException': 'java/lang/RuntimeException',
    'java/util/ConcurrentModificationException': 'java/lang/RuntimeException',
    'java/lang/RuntimeException': 'java/lang/Exception',
    'java/lang/Exception': 'java/lang/Throwable',
    'java/lang/Error': 'java/lang/Throwable',
    'java/lang/AssertionError': 'java/lang/Error',
    'java/lang/NoSuchFieldError': 'java/lang/Error',
}


def split_goal(g, hyps):
    """conjuncts of a goal, each with its own hypotheses; universally quantified goals are proved for fresh constants"""
    if g.op == 'and':
        out = []
        for a in g.args: out += split_goal(a, hyps)
        return out
    if g.op == '=>' :
        if any(g is h for h in hyps): return [(hyps, TRUE)]
        st = State(); st.assume(g.args[0])
        if st.dead: return [(hyps, TRUE)]
        return split_goal(g.args[1], hyps + st.pc)
    if g.op == 'forall':
        if any(g is h for h in hyps): return [(hyps, TRUE)]
        vs, body, ps = qparts(g)
        return split_goal(subst(body, {v: Fresh('sk', v.sort) for v in vs}), hyps)
    return split_ites(hyps, push_stores(g), 4)


def find_ite(t):
    if t.op == 'ite':
        r = find_ite(t.args[0])
        return t if r is None else r
    if t.op in ('forall', 'exists'): return None
    for a in t.args:
        r = find_ite(a)
        if r is not None: return r
    return None


def split_ites(hyps, g, n):
    """a goal with a case distinction inside becomes one goal per case"""
    i = find_ite(g) if n > 0 else None
    if i is None: return [(hyps, g)]
    c = i.args[0]; out = []
    for b, h in ((TRUE, c), (FALSE, Not(c))):
        st = State(); st.assume(h)
        if st.dead or any(Not(h) is x for x in hyps): continue
        out += split_ites(hyps + st.pc, push_stores(subst(g, {c: b})), n - 1)
    return out


class Ex:
    def __init__(self, classes, mode, oracle=None):
        self.classes = classes
        self.dom = IntDom() if mode == 'int' else BVDom()
        self.mode = mode
        self.oracle = oracle          # feasibility/validity oracle
        self.obls = []
        self.quiet = 0
        self.nloc = 0
        self.statics = {}             # (cls, field) -> value
        self.clinit_done = {}
        self.static_heap = {}         # locations made by static initialisers
        self.contracts = {}           # method key -> contract used at calls
        self.loopspecs = {}           # method name -> [LoopSpec]
        self.ctx = None               # current contract context
        self.callstack = []
        self.modcache = {}
        self.autoloops = set(); self.choice = {}; self.loopalts = {}
        self.covers = {}              # label -> [hyps]
        self.hooks = None
        self.trace_inlined = set()
        self.loopuse = []
        self.used_specs = set()

    # ------------------------------------------------------------ helpers
    def newloc(self): self.nloc += 1; return self.nloc

    def alloc_arr(self, st, ety, ln, data, desc=None):
        l = self.newloc(); st.heap[l] = Arr(ety, ln, data, None, desc); return Loc(l)

    def idxc(self, n): return self.dom.const('I', n)

    def ety_of(self, desc):
        """element type for an array element descriptor"""
        return desc if len(desc) == 1 else 'E'

    def elem_sort(self, ety): return self.dom.elem(ety)

    def arr_sort(self, ety): return ArrS(self.dom.idx, self.elem_sort(ety))

    def fresh_val(self, st, name, desc, nonnull=False):
        """fresh value of a Java type (scalars and opaque references)"""
        if desc in 'ZBCSI':
            t = Fresh(name, self.dom.sort(desc)); st.assume(self.dom.inrange(t, desc)); return V('I', t, desc)
        if desc == 'J':
            t = Fresh(name, self.dom.sort('J')); st.assume(self.dom.inrange(t, 'J')); return V('J', t)
        if desc in 'FD': return V(desc, Fresh(name, self.dom.sort(desc)))
        if self.is_fn(desc): return Fn(Fresh(name, 'Fn'), desc[1:-1])
        return Opq(Fresh(name, 'E'))

    def is_fn(self, desc):
        if not desc.startswith('Lcom/bytefacets'): return False
        n = desc[1:-1]
        c = self.classes.get(n)
        return c is not None and bool(c.acc & 0x200)

    def wrapv(self, desc, t):
        """term -> value for a Java type"""
        if desc in 'ZBCSI': return V('I', t, desc)
        if desc in 'JFD': return V(desc, t)
        if t.sort == 'Fn': return Fn(t, desc[1:-1])
        return Opq(t)

    def term(self, v):
        if isinstance(v, V): return v.t
        if isinstance(v, Opq): return v.t
        if isinstance(v, Fn): return v.t
        if v is NULL: return NULLE
        if isinstance(v, Lam): return Const('fn!%s.%s' % (v.ref[0], v.ref[1]) + ''.join('.%s' % c for c in v.cap), 'Fn')
        if isinstance(v, Str): return Const('str!%s' % (v.s if v.s is not None else id(v)), 'E')
        if isinstance(v, Exc): return Const('exc!%s' % v.cls, 'E')
        if isinstance(v, (Junk, Cls, jdk.ClsOf)): return Const('obj!%d' % id(v), 'E')
        if isinstance(v, Loc): return Const('loc!%d' % v.n, 'E')
        if isinstance(v, Term): return v
        raise Unsupported('no term for %r' % (v,))

    def fnterm(self, v):
        if v is NULL: return NULLF
        return self.term(v)

    def where(self):
        return self.callstack[-1] if self.callstack else '?'

    def line(self, m, pc):
        return '%s.%s:%d' % (m.cls.name.split('/')[-1], m.name, m.line(pc))

    def tags(self):
        return self.ctx.tags if self.ctx is not None else ()

    def oblige(self, st, name, goal, kind='safety', tags=None, where=None, hyps=None):
        if self.quiet or st.dead: return
        tags = tuple(tags if tags is not None else self.tags()); where = where or self.where()
        hyps = list(hyps if hyps is not None else st.pc)
        known = {h.id for h in hyps}
        for hs, g in split_goal(goal, hyps):
            if g.id in known or any(g is h for h in hs[len(hyps):]): g = TRUE
            self.obls.append(Obl(name, tags, hs, g, where, kind))

    def valid(self, st, t):
        """cheap sound check that t holds on this path (ground facts only)"""
        if t is TRUE: return True
        if t is FALSE: return False
        if self.oracle is None: return False
        return self.oracle.valid(st.pc, t)

    def feasible(self, st):
        if st.dead: return False
        if self.oracle is None: return True
        return self.oracle.feasible(st.pc)

    def branch(self, st, cond):
        """-> list of (state, bool)"""
        if cond is TRUE: return [(st, True)]
        if cond is FALSE: return [(st, False)]
        if self.oracle is not None:
            r = self.oracle.decide(st.pc, cond)
            if r is True:
                st.assume(cond); return [(st, True)]
            if r is False:
                st.assume(Not(cond)); return [(st, False)]
        st.forks += 1
        a = st.fork(); a.assume(cond)
        st.assume(Not(cond))
        return [(a, True), (st, False)]

    def check(self, st, cond, exc, what):
        """safety condition; -> list of exceptional outcomes to add, the state continues under cond"""
        if cond is TRUE: return []
        exc = 'java/lang/' + exc
        outs = []
        if not self.quiet and self.ctx is not None and self.ctx.allows(self, exc):
            s2 = st.fork(); s2.assume(Not(cond))
            if self.feasible(s2): outs.append((s2, 'exc', Exc(exc)))
        else:
            self.oblige(st, '%s: %s' % (exc.split('/')[-1], what), cond)
        st.assume(cond)
        return outs

    # ------------------------------------------------------------ statics
    def clinit(self, cname):
        if self.clinit_done.get(cname): return
        self.clinit_done[cname] = True
        c = self.classes.get(cname)
        if c is None: return
        for f in c.fields:
            if f.static:
                if f.const is not None:
                    k = f.const
                    self.statics[(cname, f.name)] = self.ldcval(self.constval(c, k))
                else:
                    self.statics[(cname, f.name)] = self.defval(f.desc)
        m = c.mmap.get('<clinit>()V')
        if m is not None:
            q = self.quiet; self.quiet += 1
            oc, orc, ol = self.ctx, self.oracle, self.loopspecs
            self.ctx = None; self.oracle = None; self.loopspecs = {}
            try:
                st = State(); st.heap.update(self.static_heap)
                outs = self.exec_method(st, m, [])
                if len(outs) != 1 or outs[0][1] != 'ret':
                    raise Unsupported('static initialiser of ' + cname)
                self.static_heap.update(outs[0][0].heap)
            finally:
                self.quiet = q; self.ctx, self.oracle, self.loopspecs = oc, orc, ol

    def constval(self, c, k):
        if k[0] == 'str': return ('str', c.cp[k[1]])
        return k

    def ldcval(self, c):
        k, v = c[0], c[1]
        if k == 'int': return V('I', self.dom.const('I', v))
        if k == 'long': return V('J', self.dom.const('J', v))
        if k == 'float': return V('F', self.dom.flit('F', struct.unpack('>f', struct.pack('>I', v))[0], v))
        if k == 'double': return V('D', self.dom.flit('D', struct.unpack('>d', struct.pack('>Q', v))[0], v))
        if k == 'str': return Str(v)
        if k == 'class': return Cls(v)
        raise Unsupported('ldc %s' % (c,))

    def defval(self, desc):
        if desc in 'ZBCSI': return V('I', self.dom.const('I', 0), desc)
        if desc == 'J': return V('J', self.dom.const('J', 0))
        if desc in 'FD': return V(desc, self.dom.flit(desc, 0.0, 0))
        return NULL

    def getstatic(self, st, c, name, desc):
        # resolve declaring class
        n = c
        while n:
            cf = self.classes.get(n)
            if cf is None: break
            if name in cf.fmap and cf.fmap[name].static: break
            for i in cf.interfaces:
                ci = self.classes.get(i)
                if ci is not None and name in ci.fmap: n = i; cf = ci; break
            else:
                n = cf.super; continue
            break
        if n is None or self.classes.get(n) is None:
            return jdk.getstatic(self, st, c, name, desc)
        f = self.classes.get(n).fmap[name]
        self.clinit(n)
        if name == '$assertionsDisabled':
            return V('I', Fresh('assertOff', self.dom.sort('Z')), 'Z')
        if not (f.acc & ACC_FINAL) and not self.clinit_running(n):
            raise Unsupported('mutable static %s.%s' % (n, name))
        v = self.statics[(n, name)]
        for l, r in self.static_heap.items():
            if l not in st.heap: st.heap[l] = r
        return v

    def clinit_running(self, n):
        return any(k.startswith(n.split('/')[-1] + '.<clinit>') for k in self.callstack)

    # ------------------------------------------------------------ method execution
    def exec_method(self, st, m, args):
        """-> list of (state, 'ret'|'exc', value)"""
        if m.code is None:
            raise Unsupported('no code: %r' % m)
        if len(self.callstack) > 40: raise Unsupported('call depth (recursion without contract?) %r' % m)
        locs = [None] * m.max_locals
        i = 0
        ps = list(m.params)
        if not m.static: ps = ['L' + m.cls.name + ';'] + ps
        for p, a in zip(ps, args):
            if isinstance(a, V) and a.kind == 'I' and p in 'ZBCS' and a.jt != p: a = V('I', a.t, a.jt)
            locs[i] = a
            i += 2 if p in 'JD' else 1
        self.callstack.append(self.line(m, 0))
        if m.acc & ACC_SYNC: self.monitor_enter(st, m)
        try:
            outs = self.run(st, m, locs, 0, [], {}, None)
        finally:
            self.callstack.pop()
        if m.acc & ACC_SYNC:
            for o in outs: self.monitor_exit(o[0], m)
        if self.ctx is not None and self.ctx.spec.merge and self.callstack and len(outs) > 1: outs = self.merge(st, m, outs)
        return outs

    def merge_parked(self, m, parked):
        """paths that reach the same loop from outside with the same heap go on as one"""
        groups = {}
        for p in parked: groups.setdefault(p[1], []).append(p)
        out = []
        for pc, ps in groups.items():
            live = self.live_slots(m, pc)
            while ps:
                g = [ps[0]] + [p for p in ps[1:] if self.alike(ps[0], p, live)]
                ps = [p for p in ps if p not in g]
                st, _, locs, stack, active, _ = g[0]
                if len(g) > 1:
                    k = 0
                    while k < min(len(p[0].pc) for p in g) and all(p[0].pc[k] is st.pc[k] for p in g): k += 1
                    rests = [list(p[0].pc[k:]) for p in g]
                    s2 = st.fork(); s2.pc = list(st.pc[:k]); nl = [None] * len(locs)
                    for i in live:
                        vs = [p[2][i] for p in g]
                        if all(same(v, vs[0]) for v in vs): nl[i] = vs[0]; continue
                        ts = [v.t for v in vs]
                        t = self.join(ts, rests)
                        nl[i] = V(vs[0].kind, t, vs[0].jt if all(v.jt == vs[0].jt for v in vs) else vs[0].kind)
                        if vs[0].kind == 'I' or vs[0].kind == 'J': s2.assume(self.dom.inrange(t, nl[i].jt))
                    s2.assume(Or(*[And(*r) for r in rests]))
                    st, locs = s2, nl
                out.append((st, pc, locs, stack, active, 'merged'))
        return out

    def join(self, ts, rests):
        if all(t is ts[0] for t in ts): return ts[0]
        if all(t.op == 'select' and t.args[0] is ts[0].args[0] for t in ts):
            return Sel(ts[0].args[0], self.join([t.args[1] for t in ts], rests))
        r = Fresh('m', ts[0].sort)
        for t, l in zip(ts, rests): l.append(Eq(r, t))
        return r

    def alike(self, a, b, live):
        s, q = a[0], b[0]
        if s.mon != q.mon or s.log is not q.log or s.g.keys() != q.g.keys() or any(s.g[k] is not q.g[k] for k in s.g): return False
        if s.heap.keys() != q.heap.keys() or any(s.heap[k] is not q.heap[k] for k in s.heap): return False
        for i in live:
            x, y = a[2][i], b[2][i]
            if x is y or (x is not None and y is not None and same(x, y)): continue
            if not (isinstance(x, V) and isinstance(y, V) and x.kind == y.kind and x.t.sort == y.t.sort): return False
        return True

    def merge(self, st0, m, outs):
        """one outcome for the normal returns that leave the heap as it was, the disjunction of the paths becoming a hypothesis"""
        if m.ret not in ('I', 'V'): return outs
        rets = [o for o in outs if o[1] == 'ret']; rest = [o for o in outs if o[1] != 'ret']
        if len(rets) < 2: return outs
        s0 = rets[0][0]
        for s, _, v in rets[1:]:
            if s.dead or s.mon != s0.mon or s.log is not s0.log or s.g.keys() != s0.g.keys() or any(s.g[k] is not s0.g[k] for k in s.g): return outs
            if s.heap.keys() != s0.heap.keys() or any(s.heap[k] is not s0.heap[k] for k in s.heap): return outs
        n = min(len(s.pc) for s, _, _ in rets)
        k = 0
        while k < n and all(s.pc[k] is s0.pc[k] for s, _, _ in rets): k += 1
        st = s0.fork(); st.pc = list(s0.pc[:k])
        if m.ret == 'V':
            st.assume(Or(*[And(*s.pc[k:]) for s, _, _ in rets])); return [(st, 'ret', None)] + rest
        r = Fresh(m.name, rets[0][2].t.sort)
        st.assume(self.dom.inrange(r, 'I'))
        st.assume(Or(*[And(Eq(r, v.t), *s.pc[k:]) for s, _, v in rets]))
        return [(st, 'ret', V('I', r, 'I'))] + rest

    def monitor_enter(self, st, m):
        st.mon += 1
        if st.mon == 1 and self.ctx is not None and self.ctx.monitor_enter is not None and not self.quiet:
            self.ctx.monitor_enter(self, st)

    def monitor_exit(self, st, m):
        if st.mon == 1 and self.ctx is not None and self.ctx.monitor_exit is not None and not self.quiet:
            self.ctx.monitor_exit(self, st)
        st.mon -= 1

    def run(self, st, m, locs, pc0, stack, active, bound):
        """bound: None, or (header, body set) when exploring one loop body only (discovery)"""
        outs = []
        lp = loops(m)
        work = [(st, pc0, locs, stack, active, None)]
        first = True
        merging = self.ctx is not None and self.ctx.spec.merge and bound is None
        parked = []
        while work or parked:
            if not work: work, parked = self.merge_parked(m, parked), []
            st, pc, locs, stack, active, frm = work.pop()
            resumed = frm == 'merged'
            while True:
                if st.dead: break
                if merging and not resumed and pc in lp and not active and not stack and frm is not None:
                    parked.append((st, pc, locs, stack, active, frm)); break
                resumed = False
                # loop structure
                if active and any(pc not in lp[h][0] for h in active):
                    active = {h: x for h, x in active.items() if pc in lp[h][0]}
                if pc in lp and not (first and bound is not None):
                    body, backs = lp[pc]
                    if bound is not None and pc == bound[0]:
                        outs.append((st, 'back', locs)); break
                    if pc in active and frm in body:
                        lc = active[pc]
                        if lc['spec'] is None:
                            n = lc['n'] + 1
                            if n > (40 if self.mode == 'bv' and self.ctx is not None and not self.ctx.spec.endless else 3) and st.forks > lc['forks'] and self.ctx is not None: raise NeedAuto((m.cls.name, m.key, pc))
                            if n > UNROLL: raise Unsupported('loop without invariant at %s' % self.line(m, pc))
                            active = dict(active); active[pc] = dict(lc, n=n)
                        else:
                            self.back_edge(st, m, pc, locs, lc); break
                    elif pc not in active or frm not in body:
                        lc = self.enter_loop(st, m, pc, locs)
                        active = dict(active); active[pc] = lc
                        if lc['spec'] is not None:
                            st, locs = lc['st'], list(lc['locs'])
                if bound is not None and pc not in bound[1]:
                    break
                first = False
                ins = m.code[pc]
                self.callstack[-1] = self.line(m, pc)
                r = self.step(st, m, ins, locs, stack)
                # r: ('next',) | ('jump',pc) | ('ret',v) | ('multi', [(state, locs, stack, pc)], outs)
                k = r[0]
                if k == 'next': frm = pc; pc = ins.next; continue
                if k == 'jump': frm = pc; pc = r[1]; continue
                if k == 'ret':
                    outs.append((st, 'ret', r[1])); break
                if k == 'multi':
                    for (s2, l2, k2, p2) in r[1]:
                        work.append((s2, p2, l2, k2, active, pc))
                    for (s2, exc) in r[2]:
                        self.throw(work, outs, s2, m, pc, locs, exc, active)
                    break
                raise AssertionError(r)
        return outs

    def throw(self, work, outs, st, m, pc, locs, exc, active):
        cls = exc.cls if isinstance(exc, Exc) else None
        for (s, e, h, t) in m.handlers:
            if s <= pc < e:
                if t is None or (cls is not None and self.exc_is(cls, t)):
                    work.append((st, h, list(locs), [exc], active, pc)); return
                if cls is None: raise Unsupported('handler for unknown exception')
        outs.append((st, 'exc', exc))

    def exc_is(self, cls, t):
        n = cls
        while n:
            if n == t: return True
            c = self.classes.get(n)
            n = c.super if c is not None else JDKEXC.get(n)
        return t in ('java/lang/Throwable', 'java/lang/Object')

    # ------------------------------------------------------------ loops
    def live_slots(self, m, pc):
        """slots live on entry to pc"""
        lv = getattr(m, '_live', None)
        if lv is None:
            loops(m)
            use, dfn = {}, {}
            for p, i in m.code.items():
                u, d = set(), set()
                if i.op[1:] == 'load': u.add(i.a)
                elif i.op[1:] == 'store': d.add(i.a)
                elif i.op == 'iinc': u.add(i.a[0]); d.add(i.a[0])
                use[p], dfn[p] = u, d
            lv = {p: set() for p in m.code}
            ch = True
            order = sorted(m.code, reverse=True)
            while ch:
                ch = False
                for p in order:
                    s = set()
                    for q in m._succ.get(p, []): s |= lv[q]
                    s = use[p] | (s - dfn[p])
                    if s != lv[p]: lv[p] = s; ch = True
            m._live = lv
        return lv[pc]

    def find_loopspec(self, st, m, pc, locs):
        if self.ctx is None: return None, None
        self.cur_state = st
        return self.ctx.loop_spec(self, m, pc, locs)

    def enter_loop(self, st, m, pc, locs):
        spec, bind = self.find_loopspec(st, m, pc, locs)
        auto = None
        if spec is None and (m.cls.name, m.key, pc) in self.autoloops: auto = spec = AutoLoop(self.line(m, pc)); bind = {}
        if spec is None:
            return {'spec': None, 'n': 0, 'forks': st.forks}
        body, backs = loops(m)[pc]
        where = self.line(m, pc)
        live = self.live_slots(m, pc)
        asg = self.assigned(m, body)
        locs = [v if i in live or i not in asg else None for i, v in enumerate(locs)]
        if spec.ginit is not None and not (self.quiet and False):
            L0 = LoopView(self, m, pc, locs, st, bind, {}, entry=st, entry_locs=list(locs))
            for g, t in spec.ginit(self.ctx.C(st), L0).items(): st.setf(self.ctx.fr.this.n, '$' + g, t)
        entry = st.fork()
        gh = {'iter': self.idxc(0)}
        L = LoopView(self, m, pc, locs, st, bind, gh, entry=entry, entry_locs=list(locs), entry_view=None)
        for g, (sort, init, step) in spec.ghost.items():
            gh[g] = init(self.ctx.C(st), L)
        for lab, tags, t in spec.invs(self.ctx.C(st), L):
            self.oblige(st, 'loop invariant %s holds on entry' % lab, t, 'loop-init', tags, where)
        # what does the body modify?
        key = (id(self.ctx), m.cls.name, m.key, pc, tuple(self.callstack[:-1]), tuple(sorted(st.heap)), auto is None and (spec.name, tuple(sorted(bind.items()))))
        mods = self.modcache.get(key)
        if mods is None:
            mods = self.discover(st, m, pc, locs, live, body)
            for g in spec.gmods: mods[1].add((self.ctx.fr.this.n, '$' + g))
            self.modcache[key] = mods
        head, hlocs, hgh = self.havoc(st, m, pc, locs, mods[:4], spec, gh)
        hgh['iter'] = Fresh('iter', self.dom.idx)
        head.assume(self.dom.ge0(hgh['iter']))
        rel = self.relations(mods[4], entry, locs, head, hlocs, hgh['iter'])
        for what, f in rel:
            t = f(hgh['iter'], head, hlocs)
            if what[0] == 's':
                hlocs[what[1]] = V(hlocs[what[1]].kind, t, hlocs[what[1]].jt); head.assume(self.dom.inrange(t, hlocs[what[1]].jt))
            elif what[0] == 'f':
                v = head.heap[what[1]].f[what[2]]
                head.setf(what[1], what[2], V(v.kind, t, v.jt)); head.assume(self.dom.inrange(t, v.kind))
            else: head.g[what[1]] = t
        if auto is None and spec.gset is not None:
            head.g.update(spec.gset(self.ctx.C(head), LoopView(self, m, pc, hlocs, head, bind, hgh, entry=entry, entry_locs=list(locs))))
        if auto is not None:
            self.accelerate(auto, entry, locs, head, m, pc, hlocs, body, hgh['iter'], mods)
            for lab, tags, t in spec.invs(self.ctx.C(st), L):
                self.oblige(st, 'loop invariant %s holds on entry' % lab, t, 'loop-init', tags, where)
        L2 = LoopView(self, m, pc, hlocs, head, bind, hgh, entry=entry, entry_locs=list(locs))
        for lab, tags, t in spec.invs(self.ctx.C(head), L2):
            head.assume(t)
        for t in spec.assume(self.ctx.C(head), L2) if spec.assume else []:
            head.assume(t)
        var = None
        if spec.variant is not None:
            var = spec.variant(self.ctx.C(head), L2)
        if not self.quiet:
            self.loopuse.append((where, spec.name))
            self.covers.setdefault('loop head %s' % where, []).append(list(head.pc))
        return {'spec': spec, 'bind': bind, 'st': head, 'locs': hlocs, 'var': var, 'entry': entry, 'elocs': list(locs),
                'gh': hgh, 'where': where, 'head': head.fork(), 'hlocs': list(hlocs), 'rel': rel}

    # the counters of a loop: values that advance by the same amount in every iteration, or in step with another value
    def relations(self, rel, entry, elocs, head, hlocs, k):
        """-> [((kind, ...), f(iteration, state, locals) -> value)], in an order in which they can be applied"""
        out = []
        def get(w, st, lv): return lv[w[1]].t if w[0] == 's' else st.heap[w[1]].f[w[2]].t if w[0] == 'f' else st.g[w[1]]
        for w, c in rel.items():
            if isinstance(c, int):
                if w[0] == 'f' and not (w[1] in entry.heap and w[2] in entry.heap[w[1]].f): continue
                x0 = get(w, entry, elocs)
                out.append((w, lambda k, st, lv, x0=x0, c=c: x0 + k * c))
        for w, c in rel.items():
            if not isinstance(c, int):
                r, sign = c
                x0, r0 = get(w, entry, elocs), get(r, entry, elocs)
                out.append((w, lambda k, st, lv, x0=x0, r0=r0, r=r, sign=sign: x0 + (get(r, st, lv) - r0) * sign))
        return out

    def find_relations(self, base, l0, outs):
        if self.mode != 'int': return {}
        backs = [(s, lv) for (s, k, lv) in outs if k == 'back' and not s.dead]
        if not backs: return {}
        vals = {}
        for i, v in enumerate(l0):
            if isinstance(v, V) and v.kind in 'IJ' and v.t.sort == 'Int' and v.t.op == 'const': vals[('s', i)] = (v.t, [lv[i].t if isinstance(lv[i], V) else None for s, lv in backs])
        for l, r in base.heap.items():
            if isinstance(r, Obj):
                for n, v in r.f.items():
                    if isinstance(v, V) and v.kind in 'IJ' and v.t.sort == 'Int': vals[('f', l, n)] = (v.t, [s.heap[l].f[n].t for s, lv in backs])
        for g, t in base.g.items():
            if t.sort == 'Int': vals[('g', g)] = (t, [s.g[g] for s, lv in backs])
        rel, rest = {}, []
        for w, (x, xs) in vals.items():
            if any(y is None for y in xs) or all(y is x for y in xs): continue
            ds = [unwrap(y) - x for y in xs]
            if all(d is ds[0] for d in ds) and ds[0].op == 'int':
                if abs(ds[0].data) <= 64 and ds[0].data != 0: rel[w] = ds[0].data
            else: rest.append((w, ds))
        rest.sort(key=lambda p: 'gfs'.index(p[0][0]))
        while rest:
            r, ds = rest.pop(0); keep = []
            if r[0] == 'f':
                continue
            for w, es in rest:
                if all(a is b for a, b in zip(ds, es)): rel[w] = (r, 1)
                elif all((a + b) is IntC(0) for a, b in zip(ds, es)): rel[w] = (r, -1)
                else: keep.append((w, es))
            rest = keep
        return rel

    def accelerate(self, auto, entry, locs, head, m, pc, hlocs, body, k, mods):
        """what every iteration of a loop without a written invariant does: guards that held in each iteration so far,
        arrays of which element base +- iteration is written once per iteration"""
        self.quiet += 1
        try:
            outs = self.run(head.fork(), m, list(hlocs), pc, [], {}, (pc, body))
        finally:
            self.quiet -= 1
        backs = [(s, lv) for (s, kk, lv) in outs if kk == 'back' and not s.dead]
        old = consts(entry, locs, k)
        n = len(head.pc)
        sets = []
        for s, lv in backs:
            at = []
            for t in consequences(s.pc[n:]):
                at += [a for a in (t.args if t.op == 'and' else [t]) if closed_over(a, old)]
            sets.append(at)
        common = [a for a in sets[0] if all(any(b is a for b in x) for x in sets[1:])] if sets else []
        if len(sets) > 1 and all(sets):
            alt = Or(*[And(*[a for a in x if not any(a is b for b in common)]) for x in sets])
            if alt is not TRUE: common = common + [alt]
        auto.guards = [a for a in common if mentions(a, k)]
        auto.k = k
        # arrays
        for l, r in list(head.heap.items()):
            if isinstance(r, Arr) and r.elems is None and l in entry.heap and r.data is not entry.heap[l].data and self.mode == 'int' and backs:
                w = [written_once(s.heap[l].data, r.data, k, old) for s, lv in backs if l in s.heap]
                if len(w) == len(backs) and w[0] is not None and all(x is not None and x[0] is w[0][0] and x[1] is w[0][1] for x in w):
                    auto.arrays.append((('a', l), entry.heap[l].data, w[0]))
        for g, t in head.g.items():
            if is_arr(t.sort) and g in entry.g and t is not entry.g[g] and self.mode == 'int' and backs:
                w = [written_once(s.g[g], t, k, old) for s, lv in backs]
                if w[0] is not None and all(x is not None and x[0] is w[0][0] and x[1] is w[0][1] for x in w):
                    auto.arrays.append((('g', g), entry.g[g], w[0]))
        # a bound that shrinks
        auto.bound = None
        for a in auto.guards:
            e = a.args[1] - a.args[0] if a.op == '<=' and a.args[0].sort == 'Int' else \
                a.args[0].args[0] - a.args[0].args[1] - 1 if a.op == 'not' and a.args[0].op == '<=' and a.args[0].args[0].sort == 'Int' else None
            if e is not None and coef(e, k) < 0 and lin_only(e, k): auto.bound = e; break
        if auto.bound is None and not self.quiet and not (self.ctx.spec.endless if self.ctx is not None else False):
            raise Unsupported('no variant found for the loop at %s' % self.line(m, pc))

    def havoc(self, st, m, pc, locs, mods, spec, gh):
        st = st.fork()
        slots, fields, arrays, gs = mods
        nl = list(locs)
        for i in slots:
            v = locs[i]
            nm = m.local_name(pc, i) or 'l%d' % i
            if isinstance(v, V):
                nl[i] = self.fresh_val(st, nm, v.kind if v.kind != 'I' else 'I')
                if v.t.sort != nl[i].t.sort: nl[i] = V(v.kind, Fresh(nm, v.t.sort), v.kind)
                if v.kind == 'I' and slots[i]:
                    # narrow type kept by every assignment in the body
                    jt = slots[i]
                    st.assume(self.dom.inrange(nl[i].t, jt)); nl[i] = V('I', nl[i].t, jt)
            elif isinstance(v, Opq) or v is NULL: nl[i] = Opq(Fresh(nm, 'E'))
            elif isinstance(v, Fn): nl[i] = Fn(Fresh(nm, 'Fn'), v.cls)
            elif v is None: pass
            else: raise Unsupported('reference local changed in a loop')
        self.havoc_heap(st, fields, arrays)
        for g in gs:
            st.g[g] = Fresh(g, st.g[g].sort)
        hgh = dict(gh)
        for g, (sort, init, step) in spec.ghost.items() if spec is not None else ():
            hgh[g] = Fresh(g, sort)
        return st, nl, hgh

    def havoc_heap(self, st, fields, arrays):
        for (loc, name) in sorted(fields):
            v = st.heap[loc].f[name]
            if isinstance(v, V):
                nv = self.fresh_val(st, name, v.kind)
                if v.t.sort != nv.t.sort: nv = V(v.kind, Fresh(name, v.t.sort))
            elif isinstance(v, Term): nv = Fresh(name.lstrip('$'), v.sort)
            elif isinstance(v, Fn): nv = Fn(Fresh(name, 'Fn'), v.cls)
            elif isinstance(v, Opq): nv = Opq(Fresh(name, 'E'))
            elif isinstance(v, Loc) and isinstance(st.heap[v.n], Arr):
                a = st.heap[v.n]
                ln = Fresh(name + '_len', a.len.sort); st.assume(self.dom.ge0(ln)); st.assume(self.dom.inrange(ln, 'I'))
                nv = self.alloc_arr(st, a.ety, ln, Fresh(name, a.data.sort), a.desc)
            elif isinstance(v, Loc) and isinstance(st.heap[v.n], Mat):
                a = st.heap[v.n]
                ln = Fresh(name + '_len', a.len.sort); st.assume(self.dom.ge0(ln))
                l = self.newloc()
                st.heap[l] = Mat(a.ety, ln, Fresh(name + '_rowlen', a.len.sort), Fresh(name, a.data.sort), Fresh(name + '_nn', a.nn.sort))
                nv = Loc(l)
            else: raise Unsupported('cannot havoc field %s = %r' % (name, v))
            st.setf(loc, name, nv)
        for loc in sorted(arrays):
            a = st.heap[loc]
            if isinstance(a, Arr):
                nm = next((n for o in st.heap.values() if isinstance(o, Obj) for n, v in o.f.items() if isinstance(v, Loc) and v.n == loc), 'arr')
                st.heap[loc] = Arr(a.ety, a.len, Fresh(nm, a.data.sort), None, a.desc)
            else:
                st.heap[loc] = Mat(a.ety, a.len, a.rowlen, Fresh('rows', a.data.sort), Fresh('nn', a.nn.sort), a.moved)

    def diff(self, a, b, fields, arrays, gs):
        """record what differs between heaps of states a (earlier) and b"""
        for l, r in a.heap.items():
            q = b.heap.get(l)
            if q is r: continue
            if isinstance(r, Obj):
                for n in set(r.f) | set(q.f):
                    x, y = r.f.get(n), q.f.get(n)
                    if not same(x, y): fields.add((l, n))
            elif isinstance(r, Arr):
                if q.data is not r.data: arrays.add(l)
                if q.elems is not r.elems: raise Unsupported('reference array changed in loop')
            elif isinstance(r, Mat):
                if q.data is not r.data or q.nn is not r.nn: arrays.add(l)
                if q.moved != r.moved: raise Unsupported('matrix moved in loop')
        for g, t in a.g.items():
            if b.g.get(g) is not t: gs.add(g)

    def assigned(self, m, body):
        return {m.code[p].a if m.code[p].op[1:] == 'store' else m.code[p].a[0] for p in body
                if m.code[p].op[1:] == 'store' or m.code[p].op == 'iinc'}

    def discover(self, st, m, pc, locs, live, body):
        slots = {}
        for p in body:
            i = m.code[p]
            s = i.a if i.op[1:] == 'store' else i.a[0] if i.op == 'iinc' else None
            if s is not None and s in live: slots[s] = 'I'
        # reference-typed slots: handled by value comparison
        fields, arrays, gs = set(), set(), set()
        cand = {s: k for s, k in slots.items() if isinstance(locs[s], (V, Opq, Fn)) or locs[s] is NULL}
        refs = [s for s in slots if s not in cand]
        for rnd in range(8):
            self.quiet += 1
            orc = self.oracle; self.oracle = None
            try:
                s0, l0, _ = self.havoc(st, m, pc, locs, (cand, fields, arrays, gs), None, {})
                base = s0.fork()
                outs = self.run(s0.fork(), m, list(l0), pc, [], {}, (pc, body))
            finally:
                self.quiet -= 1; self.oracle = orc
            f2, a2, g2 = set(fields), set(arrays), set(gs)
            for (s, k, lv) in outs:
                if k != 'back': continue
                self.diff(base, s, f2, a2, g2)
                for r in refs:
                    if not same(lv[r], l0[r]) and locs[r] is not None:
                        raise Unsupported('reference local changed in loop at %s' % self.line(m, pc))
            if (f2, a2, g2) == (fields, arrays, gs): break
            # fields that hold replaced arrays: the fresh location of the base differs from st's; map back
            fields, arrays, gs = f2, {x for x in a2 if x in st.heap}, g2
        else:
            raise Unsupported('loop modification set does not stabilise')
        return cand, fields, arrays, gs, self.find_relations(base, l0, outs)

    def back_edge(self, st, m, pc, locs, lc):
        spec = lc['spec']
        live = self.live_slots(m, pc)
        asg = self.assigned(m, loops(m)[pc][0])
        locs = [v if i in live or i not in asg else None for i, v in enumerate(locs)]
        gh = dict(lc['gh'])
        gh['iter'] = lc['gh']['iter'] + 1
        for what, f in lc['rel']:
            t = f(gh['iter'], st, locs)
            v = (locs[what[1]].t if locs[what[1]] is not None else None) if what[0] == 's' else st.heap[what[1]].f[what[2]].t if what[0] == 'f' else st.g[what[1]]
            if v is not None and v is not t: self.oblige(st, 'loop counter %s advances evenly' % (m.local_name(pc, what[1]) if what[0] == 's' else what[-1]), Eq(v, t), 'loop-preserve', None, lc['where'])
        Lh = LoopView(self, m, pc, lc['hlocs'], lc['head'], lc['bind'], lc['gh'], entry=lc['entry'], entry_locs=lc['elocs'])
        L = LoopView(self, m, pc, locs, st, lc['bind'], gh, entry=lc['entry'], entry_locs=lc['elocs'], prev=Lh)
        for g, (sort, init, step) in spec.ghost.items():
            gh[g] = step(self.ctx.C(st), L, Lh)
        if spec.gstep is not None:
            new = spec.gstep(self.ctx.C(st), L, Lh)
            for g, t in new.items(): st.setf(self.ctx.fr.this.n, '$' + g, t)
        for lab, t in (spec.cuts(self.ctx.C(st), L, Lh) if spec.cuts else []):
            self.oblige(st, 'loop step: %s' % lab, t, 'loop-preserve', None, lc['where'])
            if not self.quiet: st.assume(t)
        for lab, tags, t in spec.invs(self.ctx.C(st), L):
            self.oblige(st, 'loop invariant %s is preserved' % lab, t, 'loop-preserve', tags, lc['where'])
        if spec.variant is not None and lc["var"] is not None:
            v = spec.variant(self.ctx.C(st), L)
            self.oblige(st, 'loop terminates (variant decreases)', And(v < lc['var'], self.dom.ge0(lc['var']) if v.sort != 'Int' else lc['var'] >= 0), 'variant', None, lc['where'])
        if not self.quiet:
            self.covers.setdefault('loop back edge %s' % lc['where'], []).append(list(st.pc))

    # ------------------------------------------------------------ instructions
    def nn(self, st, v, what):
        """null check of a reference -> exceptional outcomes"""
        if v is NULL:
            return self.check(st, FALSE, 'NullPointerException', what)
        if isinstance(v, Opq): return self.check(st, Ne(v.t, NULLE), 'NullPointerException', what)
        if isinstance(v, Fn): return self.check(st, Ne(v.t, NULLF), 'NullPointerException', what)
        return []

    def multi(self, st, outs, locs, stack, nxt):
        """continue after an instruction that may have thrown"""
        if not outs: return ('next',)
        return ('multi', [(st, locs, stack, nxt)] if not st.dead else [], [(s, e) for (s, _, e) in outs])

    def step(self, st, m, ins, locs, stack):
        op, a = ins.op, ins.a
        D = self.dom
        pop, push = stack.pop, stack.append
        o1 = op[0]
        # --- loads, stores, constants
        if op == 'iconst': push(V('I', D.const('I', a), 'Z' if a in (0, 1) else 'B' if -128 <= a < 128 else 'S' if -32768 <= a < 32768 else 'I')); return ('next',)
        if op == 'lconst': push(V('J', D.const('J', a))); return ('next',)
        if op == 'fconst': push(V('F', D.flit('F', float(a), struct.unpack('>I', struct.pack('>f', a))[0]))); return ('next',)
        if op == 'dconst': push(V('D', D.flit('D', float(a), struct.unpack('>Q', struct.pack('>d', a))[0]))); return ('next',)
        if op == 'aconst_null': push(NULL); return ('next',)
        if op == 'ldc': push(self.ldcval(a)); return ('next',)
        if len(op) == 5 and op[1:] == 'load':
            v = locs[a]
            if v is None: raise Unsupported('read of dead slot %d at %s' % (a, self.line(m, ins.pc)))
            push(v); return ('next',)
        if len(op) == 6 and op[1:] == 'store':
            locs[a] = pop(); return ('next',)
        if op == 'iinc':
            v = locs[a[0]]
            c = D.const('I', a[1])
            locs[a[0]] = V('I', D.arith(self, st, 'add', 'I', v.t, c), 'I'); return ('next',)
        if op == 'goto': return ('jump', a)
        if op == 'nop': return ('next',)
        # --- stack
        if op == 'pop': pop(); return ('next',)
        if op == 'pop2':
            v = pop()
            if not (isinstance(v, V) and v.kind in 'JD'): pop()
            return ('next',)
        if op == 'dup': push(stack[-1]); return ('next',)
        if op == 'dup_x1': v = pop(); w = pop(); stack += [v, w, v]; return ('next',)
        if op == 'dup_x2':
            v = pop(); w = pop()
            if isinstance(w, V) and w.kind in 'JD': stack += [v, w, v]
            else: u = pop(); stack += [v, u, w, v]
            return ('next',)
        if op == 'dup2':
            v = stack[-1]
            if isinstance(v, V) and v.kind in 'JD': push(v)
            else: stack += [stack[-2], stack[-1]]
            return ('next',)
        if op == 'dup2_x1':
            v = pop()
            if isinstance(v, V) and v.kind in 'JD': w = pop(); stack += [v, w, v]
            else: u = pop(); w = pop(); stack += [u, v, w, u, v]
            return ('next',)
        if op == 'dup2_x2':
            v = pop(); two = lambda x: isinstance(x, V) and x.kind in 'JD'
            if two(v):
                w = pop()
                if two(w): stack += [v, w, v]
                else: u = pop(); stack += [v, u, w, v]
            else:
                w = pop(); u = pop()
                if two(u): stack += [w, v, u, w, v]
                else: x = pop(); stack += [w, v, x, u, w, v]
            return ('next',)
        if op == 'swap': v = pop(); w = pop(); stack += [v, w]; return ('next',)
        # --- arithmetic
        if op[1:] in ('add', 'sub', 'mul', 'shl', 'shr', 'ushr', 'and', 'or', 'xor', 'div', 'rem') and o1 in 'ilfd':
            k = {'i': 'I', 'l': 'J', 'f': 'F', 'd': 'D'}[o1]
            y = pop(); x = pop()
            outs = []
            if op[1:] in ('div', 'rem') and k in 'IJ':
                outs = self.check(st, Ne(y.t, D.const(k, 0)), 'ArithmeticException', 'division by zero')
            r = D.arith(self, st, op[1:], k, x.t, y.t)
            jt = k
            if op[1:] in ('and', 'or', 'xor') and k == 'I' and x.jt == 'Z' and y.jt == 'Z': jt = 'Z'
            push(V(k, r, jt))
            return self.multi(st, outs, locs, stack, ins.next)
        if op[1:] == 'neg' and o1 in 'ilfd':
            k = {'i': 'I', 'l': 'J', 'f': 'F', 'd': 'D'}[o1]
            x = pop(); push(V(k, D.neg(self, st, k, x.t))); return ('next',)
        if len(op) == 3 and op[1] == '2':
            k = {'i': 'I', 'l': 'J', 'f': 'F', 'd': 'D'}[o1]
            to = {'i': 'I', 'l': 'J', 'f': 'F', 'd': 'D', 'b': 'B', 'c': 'C', 's': 'S'}[op[2]]
            x = pop()
            if to in 'BCS' and to in SUB.get(x.jt, ''): push(V('I', x.t, x.jt)); return ('next',)
            push(V('I' if to in 'BCS' else to, D.conv(self, st, k, to, x.t), to)); return ('next',)
        if op == 'lcmp': y = pop(); x = pop(); push(V('I', D.lcmp(x.t, y.t), 'B')); return ('next',)
        if op in ('fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'):
            y = pop(); x = pop()
            push(V('I', D.fcmp(self, 'F' if o1 == 'f' else 'D', x.t, y.t, -1 if op[-1] == 'l' else 1), 'B')); return ('next',)
        # --- branches
        if op.startswith('if'):
            c = self.cond(st, op, stack)
            br = self.branch(st, c)
            if len(br) == 1:
                return ('jump', a if br[0][1] else ins.next)
            return ('multi', [(s, list(locs), list(stack), a if t else ins.next) for s, t in br], [])
        if op == 'switch':
            v = pop(); df, tab = a
            res = []; rest = TRUE; cur = st
            for k, t in tab:
                c = Eq(v.t, D.const('I', k))
                if c is TRUE: return ('jump', t)
                if c is FALSE: continue
                s2 = cur.fork(); s2.assume(rest); s2.assume(c)
                if self.feasible(s2): res.append((s2, list(locs), list(stack), t))
                rest = And(rest, Not(c))
            s2 = cur; s2.assume(rest)
            if self.feasible(s2): res.append((s2, list(locs), list(stack), df))
            return ('multi', res, [])
        if op in ('ireturn', 'lreturn', 'freturn', 'dreturn', 'areturn'): return ('ret', pop())
        if op == 'return': return ('ret', None)
        if op == 'athrow':
            v = pop()
            if v is NULL: return ('multi', [], [(st, Exc('java/lang/NullPointerException'))])
            if isinstance(v, Loc): v = Exc(st.heap[v.n].cls)
            if not isinstance(v, Exc): raise Unsupported('throw %r' % v)
            return ('multi', [], [(st, v)])
        # --- fields
        if op == 'getstatic':
            push(self.getstatic(st, *a)); return ('next',)
        if op == 'putstatic':
            v = pop()
            if not self.clinit_running(a[0]): raise Unsupported('putstatic %s' % (a,))
            self.statics[(a[0], a[1])] = v; return ('next',)
        if op == 'getfield':
            r = pop(); outs = self.nn(st, r, 'field ' + a[1])
            if st.dead: return self.multi(st, outs, locs, stack, ins.next) if outs else ('multi', [], [])
            if not isinstance(r, Loc): raise Unsupported('getfield on %r' % (r,))
            if self.ctx is not None and self.ctx.on_getfield is not None: self.ctx.on_getfield(self, st, r, a[1])
            f = st.heap[r.n].f
            if a[1] not in f: raise Unsupported('field %s.%s' % (a[0], a[1]))
            push(f[a[1]]); return self.multi(st, outs, locs, stack, ins.next)
        if op == 'putfield':
            v = pop(); r = pop(); outs = self.nn(st, r, 'field ' + a[1])
            if st.dead: return self.multi(st, outs, locs, stack, ins.next) if outs else ('multi', [], [])
            if not isinstance(r, Loc): raise Unsupported('putfield on %r' % (r,))
            if self.ctx is not None and self.ctx.on_putfield is not None: self.ctx.on_putfield(self, st, r, a[1], v)
            if isinstance(v, V) and a[2] in 'ZBCS' and a[2] not in SUB.get(v.jt, ''):
                v = V('I', D.conv(self, st, 'I', a[2], v.t) if a[2] != 'Z' else v.t, a[2])
            st.setf(r.n, a[1], v); return self.multi(st, outs, locs, stack, ins.next)
        # --- arrays
        if op == 'newarray':
            n = pop(); ety = {4: 'Z', 5: 'C', 6: 'F', 7: 'D', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[a]
            outs = self.check(st, D.ge0(n.t), 'NegativeArraySizeException', 'array size')
            push(self.alloc_arr(st, ety, n.t, ConstArr(self.arr_sort(ety), D.default(ety)), '[' + ety))
            return self.multi(st, outs, locs, stack, ins.next)
        if op == 'anewarray':
            n = pop()
            outs = self.check(st, D.ge0(n.t), 'NegativeArraySizeException', 'array size')
            push(self.new_ref_array(st, a, n.t))
            return self.multi(st, outs, locs, stack, ins.next)
        if op == 'multianewarray':
            desc, dims = a
            if dims != 2: raise Unsupported('multianewarray %d' % dims)
            n2 = pop(); n1 = pop()
            outs = self.check(st, And(D.ge0(n1.t), D.ge0(n2.t)), 'NegativeArraySizeException', 'array size')
            ety = self.ety_of(desc[2:])
            rs = self.arr_sort(ety)
            l = self.newloc()
            st.heap[l] = Mat(ety, n1.t, n2.t, ConstArr(ArrS(D.idx, rs), ConstArr(rs, D.default(ety))),
                             ConstArr(ArrS(D.idx, 'Bool'), TRUE))
            push(Loc(l)); return self.multi(st, outs, locs, stack, ins.next)
        if op == 'arraylength':
            r = pop(); outs = self.nn(st, r, 'array length')
            if isinstance(r, Row): push(V('I', st.heap[r.loc].rowlen))
            elif isinstance(r, Loc): push(V('I', st.heap[r.n].len))
            elif st.dead: return ('multi', [], [(s, e) for s, _, e in outs])
            else: raise Unsupported('arraylength of %r' % r)
            return self.multi(st, outs, locs, stack, ins.next)
        if op[1:] == 'aload' and o1 in 'ilfdabcs':
            i = pop(); r = pop()
            outs = self.nn(st, r, 'array')
            if st.dead: return ('multi', [], [(s, e) for s, _, e in outs])
            if isinstance(r, Row):
                mt = st.heap[r.loc]
                if mt.moved: raise Unsupported('use of a copied-from matrix')
                outs += self.inb(st, i.t, mt.rowlen)
                t = Sel(Sel(mt.data, r.idx), i.t); ety = mt.ety
            else:
                ar = st.heap[r.n]
                outs += self.inb(st, i.t, ar.len)
                if isinstance(ar, Mat):
                    if ar.moved: raise Unsupported('use of a copied-from matrix')
                    outs += self.check(st, Sel(ar.nn, i.t), 'NullPointerException', 'row')
                    push(Row(r.n, i.t)); return self.multi(st, outs, locs, stack, ins.next)
                if ar.elems is not None:
                    if not is_const(i.t): raise Unsupported('symbolic index into reference array')
                    push(ar.elems[val(i.t)]); return self.multi(st, outs, locs, stack, ins.next)
                t = Sel(ar.data, i.t); ety = ar.ety
                if self.ctx is not None and self.ctx.on_load is not None and not self.quiet: self.ctx.on_load(self, st, r, i.t)
            push(self.loaded(st, ety, t)); return self.multi(st, outs, locs, stack, ins.next)
        if op[1:] == 'astore' and o1 in 'ilfdabcs' and len(op) == 7:
            v = pop(); i = pop(); r = pop()
            outs = self.nn(st, r, 'array')
            if st.dead: return ('multi', [], [(s, e) for s, _, e in outs])
            if isinstance(r, Row):
                mt = st.heap[r.loc]
                if mt.moved: raise Unsupported('use of a copied-from matrix')
                outs += self.inb(st, i.t, mt.rowlen)
                row = Sto(Sel(mt.data, r.idx), i.t, self.stored(st, mt.ety, v))
                st.heap[r.loc] = Mat(mt.ety, mt.len, mt.rowlen, Sto(mt.data, r.idx, row), mt.nn)
                return self.multi(st, outs, locs, stack, ins.next)
            ar = st.heap[r.n]
            outs += self.inb(st, i.t, ar.len)
            if isinstance(ar, Mat):
                if v is NULL:
                    st.heap[r.n] = Mat(ar.ety, ar.len, ar.rowlen, ar.data, Sto(ar.nn, i.t, FALSE))
                    return self.multi(st, outs, locs, stack, ins.next)
                if not isinstance(v, Loc) or not isinstance(st.heap[v.n], Arr): raise Unsupported('row store %r' % v)
                src = st.heap[v.n]
                self.oblige(st, 'stored row has the common row length', Eq(src.len, ar.rowlen), 'shape')
                st.assume(Eq(src.len, ar.rowlen))
                st.heap[r.n] = Mat(ar.ety, ar.len, ar.rowlen, Sto(ar.data, i.t, src.data), Sto(ar.nn, i.t, TRUE))
                del st.heap[v.n]          # ownership moves into the matrix
                return self.multi(st, outs, locs, stack, ins.next)
            if ar.elems is not None:
                if not is_const(i.t): raise Unsupported('symbolic index into reference array')
                el = list(ar.elems); el[val(i.t)] = v
                st.heap[r.n] = Arr(ar.ety, ar.len, ar.data, el, ar.desc)
                return self.multi(st, outs, locs, stack, ins.next)
            st.heap[r.n] = Arr(ar.ety, ar.len, Sto(ar.data, i.t, self.stored(st, ar.ety, v)), None, ar.desc)
            if self.ctx is not None and self.ctx.on_store is not None: self.ctx.on_store(self, st, r, i.t, v)
            return self.multi(st, outs, locs, stack, ins.next)
        # --- objects
        if op == 'new':
            push(self.new_obj(st, a)); return ('next',)
        if op == 'checkcast':
            return self.checkcast(st, a, stack, ins, locs)
        if op == 'instanceof':
            v = pop(); push(V('I', self.instanceof(st, v, a), 'Z')); return ('next',)
        if op == 'monitorenter': pop(); self.monitor_enter(st, m); return ('next',)
        if op == 'monitorexit': pop(); self.monitor_exit(st, m); return ('next',)
        if op == 'invokedynamic':
            return self.indy(st, m, ins, stack)
        if op.startswith('invoke'):
            return self.invoke(st, m, ins, locs, stack)
        raise Unsupported('opcode %s' % op)

    def inb(self, st, i, ln):
        return self.check(st, And(self.dom.ge0(i), self.dom.lt(i, ln)), 'ArrayIndexOutOfBoundsException', 'index in bounds')

    def loaded(self, st, ety, t):
        if ety == 'E': return Opq(t)
        if ety in 'FD': return V(ety, t)
        if ety == 'J':
            if self.mode == 'int' and t.op == 'select': st.assume(self.dom.inrange(t, 'J'))
            return V('J', t)
        if self.mode == 'int' and t.op == 'select' and ety != 'Z': st.assume(self.dom.inrange(t, ety))
        return V('I', self.dom.load(self, st, ety, t), ety)

    def stored(self, st, ety, v):
        if ety == 'E': return self.term(v)
        return self.dom.store(self, st, ety, v)

    def new_ref_array(self, st, elem, n):
        """elem: class name or array descriptor"""
        if elem.startswith('['):
            ety = self.ety_of(elem[1:])
            rs = self.arr_sort(ety); l = self.newloc()
            st.heap[l] = Mat(ety, n, Fresh('rowlen', n.sort), Fresh('rows', ArrS(self.dom.idx, rs)), ConstArr(ArrS(self.dom.idx, 'Bool'), FALSE))
            return Loc(l)
        if is_const(n) and elem.startswith('com/bytefacets') or (is_const(n) and val(n) < 16 and self.mode == 'bv'):
            l = self.newloc(); st.heap[l] = Arr('E', n, None, [NULL] * val(n), '[L%s;' % elem); return Loc(l)
        return self.alloc_arr(st, 'E', n, ConstArr(self.arr_sort('E'), NULLE), '[L%s;' % elem)

    def new_obj(self, st, cname):
        c = self.classes.get(cname)
        if c is None or self.exc_is(cname, 'java/lang/Throwable') and self._is_exc(cname):
            return jdk.new(self, st, cname)
        self.clinit(cname)
        f = {x.name: self.defval(x.desc) for x in self.classes.all_fields(cname)}
        l = self.newloc(); st.heap[l] = Obj(cname, f)
        if self.ctx is not None and self.ctx.on_new is not None: self.ctx.on_new(self, st, Loc(l), cname)
        return Loc(l)

    def _is_exc(self, cname):
        n = cname
        while n:
            if n in JDKEXC or n == 'java/lang/Throwable': return True
            c = self.classes.get(n); n = c.super if c is not None else None
        return False

    def cond(self, st, op, stack):
        D = self.dom
        if op in ('ifnull', 'ifnonnull'):
            v = stack.pop()
            t = self.refeq(v, NULL)
            return t if op == 'ifnull' else Not(t)
        if op in ('if_acmpeq', 'if_acmpne'):
            y = stack.pop(); x = stack.pop()
            t = self.refeq(x, y)
            return t if op == 'if_acmpeq' else Not(t)
        if op.startswith('if_icmp'): y = stack.pop().t; x = stack.pop().t
        else: x = stack.pop().t; y = D.const('I', 0)
        k = op[-2:]
        if k == 'eq': return Eq(x, y)
        if k == 'ne': return Ne(x, y)
        if k == 'lt': return D.lt(x, y)
        if k == 'ge': return Not(D.lt(x, y))
        if k == 'gt': return D.lt(y, x)
        if k == 'le': return Not(D.lt(y, x))
        raise Unsupported(op)

    def refeq(self, x, y):
        if x is y: return TRUE
        for p, q in ((x, y), (y, x)):
            if p is NULL:
                if isinstance(q, Opq): return Eq(q.t, NULLE)
                if isinstance(q, Fn): return Eq(q.t, NULLF)
                return BoolC(q is NULL)
        if isinstance(x, (Opq, Str)) and isinstance(y, (Opq, Str)): return Eq(self.term(x), self.term(y))
        if isinstance(x, (Fn, Lam)) and isinstance(y, (Fn, Lam)): return Eq(self.fnterm(x), self.fnterm(y))
        if isinstance(x, Loc) and isinstance(y, Loc): return BoolC(x.n == y.n)
        if isinstance(x, Cls) and isinstance(y, Cls): return BoolC(x.name == y.name)
        raise Unsupported('comparison of %r and %r' % (x, y))

    def checkcast(self, st, cls, stack, ins, locs):
        v = stack[-1]
        if isinstance(v, Opq):
            r = jdk.checkcast(self, st, v, cls)
            if r is not None:
                outs, nv = r
                stack[-1] = nv
                return self.multi(st, outs, locs, stack, ins.next)
            return ('next',)
        if isinstance(v, Loc):
            o = st.heap[v.n]
            if isinstance(o, Obj) and not cls.startswith('[') and cls not in self.classes.supers(o.cls) and cls != 'java/lang/Object':
                outs = self.check(st, FALSE, 'ClassCastException', cls)
                return ('multi', [], [(s, e) for s, _, e in outs])
        return ('next',)

    def instanceof(self, st, v, cls):
        if v is NULL: return self.dom.const('I', 0)
        if isinstance(v, Loc):
            o = st.heap[v.n]
            if isinstance(o, Obj): return self.dom.const('I', 1 if cls in self.classes.supers(o.cls) else 0)
        if isinstance(v, Opq):
            return Ite(jdk.kind_is(self, v, cls), self.dom.const('I', 1), self.dom.const('I', 0))
        raise Unsupported('instanceof %s of %r' % (cls, v))

    # ------------------------------------------------------------ calls
    def indy(self, st, m, ins, stack):
        b, name, desc = ins.a
        ps, ret = parse_desc(desc)
        cap = [stack.pop() for _ in ps][::-1]
        ref, args = m.cls.boot[b]
        _, kind, ri = m.cls.cp[ref]
        bc = m.cls.ref(ri)
        if bc[0] == 'java/lang/invoke/LambdaMetafactory':
            _, k2, r2 = m.cls.cp[args[1]]
            tgt = m.cls.ref(r2)
            inst = m.cls.cp[m.cls.cp[args[2]][1]]
            stack.append(Lam(ret[1:-1], k2, tgt, cap, (name, m.cls.cp[m.cls.cp[args[0]][1]], inst)))
            return ('next',)
        if bc[0] == 'java/lang/invoke/StringConcatFactory':
            stack.append(Str()); return ('next',)
        raise Unsupported('invokedynamic %s' % (bc,))

    def invoke(self, st, m, ins, locs, stack):
        cname, name, desc = ins.a
        ps, ret = parse_desc(desc)
        args = [stack.pop() for _ in ps][::-1]
        if ins.op != 'invokestatic': args.insert(0, stack.pop())
        outs = self.call(st, ins.op, cname, name, desc, args)
        cont, excs = [], []
        for (s, k, v) in outs:
            if k == 'exc': excs.append((s, v)); continue
            if s.dead: continue
            cont.append((s, v))
        if len(cont) == 1 and not excs and cont[0][0] is st:
            if ret != 'V': stack.append(cont[0][1])
            return ('next',)
        res = []
        for (s, v) in cont:
            k2 = list(stack)
            if ret != 'V': k2.append(v)
            res.append((s, list(locs), k2, ins.next))
        return ('multi', res, excs)

    def call(self, st, op, cname, name, desc, args):
        """-> list of outcomes"""
        if op != 'invokestatic':
            outs = self.nn(st, args[0], 'call of ' + name) if name != '<init>' else []
            if st.dead: return outs
            recv = args[0]
        else:
            outs = []; recv = None
        # functional objects
        if isinstance(recv, Lam):
            if recv.meth is not None and name != recv.meth[0]:        # a default method of the functional interface
                m = self.classes.find_method(recv.iface, name, desc) or self.classes.jdk_method(recv.iface, name, desc)
                if m is not None and m.code is not None: return outs + self.call_method(st, m, args, op)
            return outs + self.call_lambda(st, recv, args[1:])
        if isinstance(recv, Fn):
            r = self.ctx.call_fn(self, st, recv, name, args[1:])
            if r is not None: return outs + r
            raise Unsupported('call of %s.%s on an opaque function' % (recv.cls, name))
        m = None
        if op == 'invokestatic' or op == 'invokespecial':
            m = self.classes.find_method(cname, name, desc) if self.classes.get(cname) is not None else None
        elif isinstance(recv, Loc) and isinstance(st.heap.get(recv.n), Obj):
            m = self.classes.find_method(st.heap[recv.n].cls, name, desc)
        if m is None or m.code is None:
            r = jdk.call(self, st, op, cname, name, desc, args)
            if r is None:
                # the JDK's own bytecode, where it is simple enough to be run like the code under test
                m = self.classes.jdk_method(cname, name, desc) if op == 'invokestatic' or isinstance(recv, (Lam, Fn)) else None
                if m is not None: return outs + self.exec_method(st, m, args)
                raise Unsupported('call of %s.%s%s on %r' % (cname, name, desc, recv))
            return outs + r
        return outs + self.call_method(st, m, args, op)

    def call_method(self, st, m, args, op='invokestatic'):
        if m.static and m.name != '<clinit>': self.clinit(m.cls.name)
        con = self.find_contract(st, m, args) if self.ctx is not None else None
        if con is not None:
            if not self.quiet: self.used_specs.add(con.ident())
            return con.apply(self, st, m, args)
        if not self.quiet: self.trace_inlined.add('%s.%s' % (m.cls.name.split('/')[-1], m.name))
        return self.exec_method(st, m, args)

    def find_contract(self, st, m, args):
        return self.ctx.find_contract(self, st, m, args)

    def call_lambda(self, st, lam, args):
        cname, name, desc = lam.ref
        full = list(lam.cap) + list(args)
        if lam.kind == 6:
            op = 'invokestatic'
            ps, _ = parse_desc(desc)
        else:
            op = {5: 'invokevirtual', 7: 'invokespecial', 9: 'invokeinterface', 8: 'new'}[lam.kind]
            ps = [None] + parse_desc(desc)[0]
        full = [jdk.adapt(self, st, v, p) for v, p in zip(full, ps)]
        return self.call(st, op, cname, name, desc, full)

    # ------------------------------------------------------------ arithmetic facts supplied by specifications
    def spec_and(self, st, a, b, kind):
        t = App('and_%s' % kind, 'Int', a, b)
        st.assume(Implies(b >= 0, And(IntC(0) <= t, t <= b)))
        st.assume(Implies(a >= 0, And(IntC(0) <= t, t <= a)))
        return t

    def spec_mul(self, st, a, b):
        if a.id > b.id: a, b = b, a
        return App('mulU', 'Int', a, b)

    def spec_d2i(self, st, a):
        """(int) of a double in the shapes the code uses; the facts are proved in spec/arith.py"""
        lo, hi = RANGE['I']
        if a.op == 'app' and a.data == 'dceil' and a.args[0].op == 'app' and a.args[0].data == 'fdiv':
            x, y = a.args[0].args
            if x.op == 'raw' and x.data == 'to_real' and y.op == 'raw' and y.data == 'to_real':
                n, d = x.args[0], y.args[0]
                r = App('ceildiv', 'Int', n, d)
                p = self.spec_mul(st, r, d)
                st.assume(Implies(And(n >= 0, d > 0, App('ispow2', 'Bool', d)), And(r >= 0, r <= n, p >= n, Or(Eq(r, IntC(0)), p - d < n))))
                st.assume(And(IntC(lo) <= r, r <= IntC(hi)))
                return r
        if a.op == 'app' and a.data == 'fmul':
            x, y = a.args
            if y.op == 'raw' and y.data == 'to_real': x, y = y, x
            if x.op == 'raw' and x.data == 'to_real':
                n = x.args[0]
                r = App('scale', 'Int', n, y)
                st.assume(Implies(And(n > 0, App('ispow2', 'Bool', n), RealC(0) < y, y <= RealC(1)), And(r >= 0, r <= n)))
                st.assume(And(IntC(lo) <= r, r <= IntC(hi)))
                return r
        if a.op == 'raw' and a.data == 'to_real': return a.args[0]
        r = App('d2i', 'Int', a)
        st.assume(And(IntC(lo) <= r, r <= IntC(hi)))
        return r


def same(x, y):
    if x is y: return True
    if isinstance(x, V) and isinstance(y, V): return x.t is y.t
    if isinstance(x, Loc) and isinstance(y, Loc): return x.n == y.n
    if isinstance(x, Opq) and isinstance(y, Opq): return x.t is y.t
    if isinstance(x, Fn) and isinstance(y, Fn): return x.t is y.t
    if isinstance(x, Lam) and isinstance(y, Lam):
        return x.ref == y.ref and len(x.cap) == len(y.cap) and all(same(p, q) for p, q in zip(x.cap, y.cap))
    if isinstance(x, Str) and isinstance(y, Str): return x.s == y.s
    return False


# ================================================================ views for the specification language
class View:
    """object view in a state: attributes are fields (terms or views) and ghost fields"""
    def __init__(self, ex, st, loc):
        object.__setattr__(self, '_e', ex); object.__setattr__(self, '_s', st); object.__setattr__(self, '_l', loc)

    def __getattr__(self, n):
        f = self._s.heap[self._l].f
        if '$' + n in f: return f['$' + n]
        if n not in f: raise AttributeError('%s has no field %s' % (self._s.heap[self._l].cls, n))
        return view(self._e, self._s, f[n])

    def has(self, n):
        f = self._s.heap[self._l].f
        return n in f or '$' + n in f

    @property
    def cls(self): return self._s.heap[self._l].cls


class AView:
    def __init__(self, ex, st, loc): self._e = ex; self._s = st; self._l = loc
    @property
    def len(self): return self._s.heap[self._l].len
    @property
    def data(self): return self._s.heap[self._l].data
    @property
    def ety(self): return self._s.heap[self._l].ety
    def __getitem__(self, i): return Sel(self.data, lift(i, self._e.dom.idx))
    # matrices
    @property
    def rowlen(self): return self._s.heap[self._l].rowlen
    @property
    def nn(self): return self._s.heap[self._l].nn
    def at(self, r, c): return Sel(Sel(self.data, lift(r, self._e.dom.idx)), lift(c, self._e.dom.idx))


def view(ex, st, v):
    if isinstance(v, V): return v.t
    if isinstance(v, (Opq, Fn, Lam, Str)): return ex.term(v)
    if isinstance(v, Loc):
        r = st.heap[v.n]
        return View(ex, st, v.n) if isinstance(r, Obj) else AView(ex, st, v.n)
    if v is NULL: return NULL
    return v


class NeedAuto(Exception):
    """a loop nobody wrote an invariant for goes on: its invariant is to be inferred"""
    def __init__(self, key): Exception.__init__(self, str(key)); self.key = key


class AutoLoop:
    """inferred invariants: obligations like any other"""
    method = None; vars = {}; ghost = {}; gmods = (); ginit = None; gstep = None; assume = None; cuts = None; order = None; guard = None
    def __init__(self, name): self.name = 'inferred'; self.gset = None; self.guards = []; self.arrays = []; self.k = None; self.bound = None
    def invs(self, c, L):
        it = L.iter; out = []; k = self.k
        if k is None: return []
        for a in self.guards:
            sel = indexed(a, k)
            if sel is None: out.append(('the guard held before', None, Or(Eq(it, IntC(0)), And(subst(a, {k: IntC(0)}), subst(a, {k: it - 1}))) if it.sort == 'Int' else TRUE))
            else:
                c0, s = sel       # index = c0 + s * k; quantify over the index
                out.append(('the guard held before', None, Forall('Int', lambda x: Implies(And(IntC(0) <= (x - c0) * s, (x - c0) * s < it), subst(a, {k: (x - c0) * s})))))
        for (w, d0, (idx, val)) in self.arrays:
            d = c.st.heap[w[1]].data if w[0] == 'a' else c.st.g[w[1]]
            s = coef(idx, k); c0 = idx - k * s
            out.append(('elements written so far', None, Forall('Int', lambda x: Eq(Sel(d, x), Ite(And(IntC(0) <= (x - c0) * s, (x - c0) * s < it), subst(val, {k: (x - c0) * s}), Sel(d0, x))), lambda x: Sel(d, x))))
        return out
    def variant(self, c, L): return subst(self.bound, {self.k: L.iter}) if self.bound is not None else None


def unwrap(t):
    """the sum inside its wrap-around cases"""
    if t.op != 'ite' or t.sort != 'Int': return t
    out = []
    def go(x):
        if x.op == 'ite': go(x.args[1]); go(x.args[2])
        else: out.append(x)
    go(t)
    for x in out[1:]:
        d = x - out[0]
        if d.op != 'int' or d.data % 2**32: return t
    return min(out, key=lambda x: abs(x.data[0] if x.op == 'sum' else x.data if x.op == 'int' else 0))


def coef(t, k):
    if t is k: return 1
    return dict(zip(t.args, t.data[1])).get(k, 0) if t.op == 'sum' else 0


def lin_only(t, k):
    return t is k or (t.op == 'sum' and not any(mentions(a, k) for a in t.args if a is not k))


def mentions(t, k):
    seen = set()
    def go(t):
        if t is k: return True
        if t.id in seen: return False
        seen.add(t.id)
        return any(go(a) for a in t.args)
    return go(t)


def fconsts(t, seen, out):
    if t.id in seen: return
    seen.add(t.id)
    if t.op == 'const': out.add(t.id)
    for a in t.args: fconsts(a, seen, out)


def consts(entry, elocs, k):
    """the constants that mean the same in every iteration, and the iteration"""
    seen, out = set(), {k.id}
    for t in entry.pc: fconsts(t, seen, out)
    for v in elocs:
        if isinstance(getattr(v, 't', None), Term): fconsts(v.t, seen, out)
    for t in entry.pc: fconsts(t, seen, out)
    for r in entry.heap.values():
        if isinstance(r, Obj):
            for v in r.f.values():
                t = v if isinstance(v, Term) else getattr(v, 't', None)
                if t is not None: fconsts(t, seen, out)
        elif isinstance(r, Arr):
            for t in (r.len, r.data):
                if t is not None: fconsts(t, seen, out)
        elif isinstance(r, Mat):
            for t in (r.len, r.rowlen, r.data, r.nn): fconsts(t, seen, out)
    for t in entry.g.values(): fconsts(t, seen, out)
    return out


def consequences(ts):
    """with what follows from equivalences of which one side is known"""
    ts = [a for t in ts for a in (t.args if t.op == 'and' else [t])]
    out = list(ts)
    for t in ts:
        if t.op == '=' and t.args[0].sort == 'Bool':
            for a, b in (t.args, t.args[::-1]):
                if any(x is a for x in ts): out.append(b)
                elif any(x is Not(a) for x in ts): out.append(Not(b))
    return out


def closed_over(t, old):
    out = set(); fconsts(t, set(), out)
    return out <= old and not has_quant(t)


def written_once(d, base, k, old):
    """(index, value) when d is base with one element written, at an index that moves with the iteration"""
    if d.op != 'store' or d.args[0] is not base: return None
    i, v = d.args[1], d.args[2]
    if abs(coef(i, k)) != 1 or not lin_only(i, k): return None
    if not closed_over(i, old) or not closed_over(v, old): return None
    return i, v


def indexed(a, k):
    """an array or function application over base +- k in a"""
    found = []
    def go(t):
        if found: return
        for x in t.args: go(x)
        if t.op == 'select' and lin_only(t.args[1], k) and abs(coef(t.args[1], k)) == 1 and not mentions(t.args[0], k): found.append(t.args[1])
    go(a)
    if not found: return None
    s = coef(found[0], k)
    return found[0] - k * s, s


class LoopView:
    def __init__(self, ex, m, pc, locs, st, bind, gh, entry=None, entry_locs=None, entry_view=None, prev=None):
        self._ex = ex; self._m = m; self._pc = pc; self._locs = locs; self._st = st; self._bind = bind or {}
        self._gh = gh; self._entry = entry; self._el = entry_locs; self._headview = prev
        self._names = {}
        for (s, l, n, d, i) in m.lvt:
            if s <= pc < s + l: self._names[n] = i

    def slot(self, n):
        n = self._bind.get(n, n)
        if isinstance(n, int): return n
        return self._names.get(n)

    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        if n in self._gh: return self._gh[n]
        i = self.slot(n)
        if i is None or self._locs[i] is None: raise KeyError(n)
        return view(self._ex, self._st, self._locs[i])

    def has(self, n):
        i = self.slot(n)
        return n in self._gh or (i is not None and self._locs[i] is not None)

    def old(self, n):
        """value of a local at loop entry"""
        return view(self._ex, self._entry, self._el[self.slot(n)])

    @property
    def bottom(self):
        """is the loop tested only at its end? then what the test says holds at the head"""
        return all(self._m.code[b].op.startswith('if') for b in loops(self._m)[self._pc][1])

    def val(self, n): return self._locs[self.slot(n)]

    def before(self, view):
        """an object as it was when the loop was entered"""
        return type(view)(view._e, self._entry, view._l)
