"""Contracts: the specification language, verification of a method against its contract, application at calls."""
import itertools
from .term import *
from .dom import *
from .symex import *
from .symex import Arr, Mat, Obj
from . import jdk
from .classfile import parse_desc, loops

P = 'com/bytefacets/collections/'


class LoopSpec:
    """invariant of a loop.
    method: name of the method that contains it; vars: {spec name: descriptor} of the locals it mentions
    inv(C, L) -> [(label, tags, term)]"""
    def __init__(self, name, method, vars=None, inv=None, variant=None, ghost=None, assume=None, cuts=None, order=None, guard=None, gmods=(), ginit=None, gstep=None, gset=None, assigns=(), keeps=(), walks=()):
        self.assigns = tuple(assigns); self.keeps = tuple(keeps)        # locals the body assigns / does not assign: tells loops over the same locals apart
        self.walks = tuple(walks)       # locals that follow links: assigned, and never counted up or down
        self.name = name; self.method = method; self.vars = vars or {}
        self.invs = inv; self.variant = variant; self.ghost = ghost or {}
        self.assume = assume; self.cuts = cuts; self.order = order; self.guard = guard
        # cuts(C, L, L at the head) -> [(label, term)]: intermediate facts, proved at the back edge before the invariants
        self.gmods = gmods; self.ginit = ginit; self.gstep = gstep      # ghost fields of this set on entry and at the back edge
        self.gset = gset        # ghost names of the activation that an iteration gives a value (for the loops inside it)


class Frame:
    """one activation: receiver, arguments, pre-state"""
    def __init__(self, ex, spec, this, args, pre):
        self.ex = ex; self.spec = spec; self.this = this; self.args = args; self.pre = pre


class C:
    """what specifications see: C.this, C.<argument>, C.old, C.res"""
    def __init__(self, fr, st, res=None):
        self.fr = fr; self.st = st; self._res = res; self.ex = fr.ex; self.spec = fr.spec
    @property
    def this(self): return View(self.ex, self.st, self.fr.this.n)
    @property
    def old(self): return C(self.fr, self.fr.pre)
    @property
    def res(self): return view(self.ex, self.st, self._res)
    @property
    def resv(self): return self._res
    def arg(self, n): return view(self.ex, self.st, self.fr.args[n])
    def argv(self, n): return self.fr.args[n]
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        if n in self.fr.args: return self.arg(n)
        raise AttributeError('no argument ' + n)
    @property
    def g(self): return self.st.g
    @property
    def og(self): return self.fr.pre.g


class ClassSpec:
    """invariant and ghost state of a class"""
    name = None
    ghosts = {}            # ghost field -> sort
    def __init__(self, cls): self.cls = cls
    def fields(self, ex, st, o, f): pass     # adjust the generated field values
    def inv(self, o, ex): return []          # o: View -> [(label, tags, term)]

    def make(self, ex, st):
        """an arbitrary object of this class"""
        f = {}
        for x in ex.classes.all_fields(self.cls):
            f[x.name] = self.field(ex, st, x)
        for g, s in self.ghosts.items(): f['$' + g] = Fresh(g, s)
        l = ex.newloc(); st.heap[l] = Obj(self.cls, f)
        return Loc(l)

    def field(self, ex, st, x):
        d = x.desc
        return make_val(ex, st, x.name, d)


def make_arr(ex, st, name, d):
    """arbitrary array (or null is not included)"""
    D = ex.dom
    ln = Fresh(name + '_len', D.idx if isinstance(D.idx, str) else D.idx)
    st.assume(And(D.ge0(ln), D.inrange(ln, 'I')))
    if d.startswith('[['):
        ety = ex.ety_of(d[2:]); rs = ex.arr_sort(ety); l = ex.newloc()
        rl = Fresh(name + '_rowlen', ln.sort); st.assume(D.ge0(rl))
        st.heap[l] = Mat(ety, ln, rl, Fresh(name, ArrS(D.idx, rs)), Fresh(name + '_nn', ArrS(D.idx, 'Bool')))
        return Loc(l)
    ety = ex.ety_of(d[1:])
    return ex.alloc_arr(st, ety, ln, Fresh(name, ex.arr_sort(ety)), d)


def make_val(ex, st, name, d):
    if d.startswith('['): return make_arr(ex, st, name, d)
    if d in ('Ljava/util/function/LongSupplier;',): return Opq(Fresh(name, 'E'))
    if ex.is_fn(d):
        t = Fresh(name, 'Fn'); return Fn(t, d[1:-1])
    return ex.fresh_val(st, name, d)


class MethodSpec:
    """contract of one method. Subclass and override."""
    cls = None; name = None; desc = None
    mode = 'int'
    tags = ()                  # properties that need this method to be safe
    cspec = None               # ClassSpec of the receiver
    use_inv = True             # receiver invariant holds before and after
    inv_pre = None; inv_post = None     # override use_inv for one side
    mods = ()                  # 'f' = field f of this and (for an array) its contents; '[f' = only the contents of array f; '*' = all; 'arg:x' = contents of array x
    loops = ()
    elems = frozenset(); side = frozenset()      # see term.reduce_hyps
    uses = ()                  # contracts usable at calls: MethodSpec objects
    def __init__(self, **kw):
        for k, v in kw.items(): setattr(self, k, v)

    # --- to override
    def world(self, ex, st, fr): pass                 # extra pre-state
    def requires(self, c): return []                  # [(label, term)]
    def raises(self, c): return {}                    # exc -> condition over the pre-state (None: unspecified when)
    def ensures(self, c): return []                   # [(label, tags, term)]
    def witness(self, c): return {}                   # ghost field of this -> term
    def gwitness(self, c): return {}                  # ghost globals
    def lemmas(self, c): return []
    def exc_ensures(self, c, exc): return []
    def callback(self, ex, st, fr, fn, name, args): return None
    def result(self, ex, st, fr): return None
    def measure(self, c): return None
    def cast_ok(self, ex, st, fr, v, cls): return False        # a reference of static type cls when it was handed in
    def args_make(self, ex, st, name, desc): return make_val(ex, st, name, desc)
    pure_fail = True           # exceptional exits change nothing
    exc_excuse = ()            # exceptions for which the state may have changed
    fresh_arrays = True        # ownership of receiver arrays is checked
    nullable = ()              # reference arguments that may be null
    exc_tags = None
    frame_tags = None
    clock = None
    on_new = None

    sig = None                 # descriptor of a private helper: found by it when its name has changed
    endless = False            # termination of its loops is not claimed
    optional = False           # a helper that need not exist
    recursive = False          # calls of the method from its own body use this contract (measure(c) decreases)
    merge = False              # merge the outcomes of inlined calls that leave the heap alone

    variant = ''               # distinguishes contracts of the same method for different receivers
    def ident(self): return (self.cls, self.name, self.desc, self.mode, type(self).__name__, self.variant)
    def key(self): return '%s.%s' % (self.cls.split('/')[-1], self.name) + (' for ' + self.variant if self.variant else '')

    def find(self, classes):
        c = self.cls
        while c:
            cf = classes.get(c)
            if cf is None: return None
            for m in cf.methods:
                if m.name == self.name and (self.desc is None or m.desc == self.desc) and not (m.acc & 0x1040 == 0x1040) and m.code is not None:
                    return m
            c = cf.super if self.name != '<init>' else None
        if self.sig is None: return None
        c = self.cls; out = []        # a private helper that has been renamed
        while c:
            cf = classes.get(c)
            if cf is None: break
            out += [m for m in cf.methods if m.acc & 2 and m.desc == self.sig and m.code is not None]
            c = cf.super
        return out[0] if len(out) == 1 else None

    def param_names(self, m):
        names = []; slot = 0 if m.static else 1
        for p in m.params:
            names.append(m.local_name(0, slot) or 'p%d' % len(names))
            slot += 2 if p in 'JD' else 1
        pn = getattr(self, 'pnames', None)
        return list(pn) if pn else names

    def pre_terms(self, c):
        out = []
        if (self.use_inv if self.inv_pre is None else self.inv_pre) and self.cspec is not None:
            for lab, tags, t in self.cspec.inv(c.this, c.ex): out.append(('invariant ' + lab, t))
        return out + list(self.requires(c))

    def post_terms(self, c):
        out = []
        if (self.use_inv if self.inv_post is None else self.inv_post) and self.cspec is not None:
            for lab, tags, t in self.cspec.inv(c.this, c.ex): out.append(('invariant ' + lab, tags, t))
        return out + list(self.ensures(c))

    # --- application at a call
    def apply(self, ex, st, m, args):
        names = self.param_names(m)
        this = None
        vals = list(args)
        if not m.static: this = vals.pop(0)
        fr = Frame(ex, self, this, dict(zip(names, vals)), None)
        c0 = C(fr, st)
        for lab, t in self.pre_terms(c0):
            ex.oblige(st, 'precondition of %s: %s' % (self.key(), lab), t, 'call-pre')
            st.assume(t)
        fr.pre = st.fork()
        if self.recursive and ex.ctx is not None and ex.ctx.spec is self:
            m0, m1 = self.measure(ex.ctx.C(ex.ctx.fr.pre)), self.measure(c0)
            if m0 is not None: ex.oblige(st, 'recursion terminates (measure decreases)', And(m1 >= 0, m1 < m0), 'variant')
        outs = []
        for exc, cond in self.raises(c0).items():
            s2 = st.fork()
            if isinstance(cond, tuple):       # may throw, and only then
                s2.assume(cond[1])
                if not ex.quiet and ex.feasible(s2): outs.append((s2, 'exc', Exc(exc)))
                continue
            if cond is not None: s2.assume(cond)
            if not ex.quiet and ex.feasible(s2): outs.append((s2, 'exc', Exc(exc)))
            if cond is not None: st.assume(Not(cond))
        fields, arrays = set(), set()
        self.mod_sets(ex, st, fr, fields, arrays)
        for (l, n) in sorted(fields):
            v = st.heap[l].f[n]
            if isinstance(v, Loc): arrays.add(v.n)
        ex.havoc_heap(st, fields, arrays)
        for r in self.returns(ex, st, fr, m):
            s2, v = r
            c = C(fr, s2, v)
            for lab, tags, t in self.post_terms(c): s2.assume(t)
            outs.append((s2, 'ret', v))
        return outs

    def returns(self, ex, st, fr, m):
        if m.ret == 'V': return [(st, None)]
        r = self.result(ex, st, fr)
        if r is not None: return r if isinstance(r, list) else [(st, r)]
        return [(st, make_val(ex, st, self.name, m.ret))]

    def mod_sets(self, ex, st, fr, fields, arrays):
        for mname in self.mods:
            if mname.startswith('arg:'):
                v = fr.args[mname[4:]]
                if isinstance(v, Loc):
                    if isinstance(st.heap[v.n], Obj):
                        for n in st.heap[v.n].f: fields.add((v.n, n))
                    else: arrays.add(v.n)
                continue
            o = st.heap[fr.this.n]
            if mname == '*':
                for n in o.f: fields.add((fr.this.n, n))
            elif mname.startswith('~'): continue
            elif mname.startswith('['):            # contents of the array only
                v = o.f[mname[1:]]
                if isinstance(v, Loc): arrays.add(v.n)
            elif '.' in mname:
                a, b = mname.split('.')
                l = o.f[a].n
                if b == '*':
                    for n in st.heap[l].f: fields.add((l, n))
                else: fields.add((l, b))
            elif mname in o.f: fields.add((fr.this.n, mname))
            elif '$' + mname in o.f: fields.add((fr.this.n, '$' + mname))
        for mname in self.mods:
            if mname.startswith('~'): fields.discard((fr.this.n, mname[1:]))


class Lemma(MethodSpec):
    """facts the contracts use, proved by themselves; the obligations mention no code"""
    cls = 'lemma'
    def obligations(self, ex): return []      # [(label, tags, hyps, goal)]


class Prog(MethodSpec):
    """a contract on what a composition of calls computes: the real methods (and the functions they return) are executed
    symbolically on arbitrary arguments, and the outcome is related to the arguments"""
    cls = 'program'; fresh_arrays = False
    allowed = ()            # exceptions that are outcomes rather than safety violations
    def program(self, ex, st, c): pass      # c: Runner
    def find(self, classes): return None


class Runner:
    def __init__(self, ex, spec): self.ex = ex; self.spec = spec
    def stat(self, st, cls, name, desc, *args): return self.ex.call(st, 'invokestatic', cls, name, desc, list(args))
    def virt(self, st, recv, cls, name, desc, *args): return self.ex.call(st, 'invokevirtual', cls, name, desc, [recv] + list(args))
    def field(self, st, cls, name, desc): return self.ex.getstatic(st, cls, name, desc)
    def enum(self, st, cls, name): return self.ex.getstatic(st, cls, name, 'L%s;' % cls)
    def arg(self, st, name, desc): return make_val(self.ex, st, name, desc)
    def apply(self, st, fn, *args): return self.ex.call(st, 'invokeinterface', '', 'apply', '()V', [fn] + list(args))
    def only(self, outs, what):
        """the single normal outcomes; an exception here is a violation"""
        r = []
        for s, k, v in outs:
            if s.dead: continue
            if k == 'exc': self.ex.oblige(s, '%s: no %s' % (what, v.cls.split('/')[-1]), FALSE, 'exceptional', self.spec.tags, self.spec.key())
            else: r.append((s, v))
        return r
    def prove(self, st, what, t, tags=None):
        if t is not FALSE: self.ex.covers.setdefault('%s of %s' % (what, self.spec.key()), []).append(list(st.pc))
        self.ex.oblige(st, what, t, 'post', tags or self.spec.tags, self.spec.key())


class Ctx:
    """contract context while verifying one method"""
    on_getfield = None; on_putfield = None; on_store = None; on_bulk = None; on_load = None
    monitor_enter = None; monitor_exit = None

    def __init__(self, spec, fr):
        self.spec = spec; self.fr = fr; self.tags = tuple(spec.tags)
        self.raise_set = {}
        self.clock = (lambda ex, st, recv: spec.clock(ex, st, fr)) if spec.clock is not None else None
        self.on_new = (lambda ex, st, loc, cname: spec.on_new(ex, st, fr, loc, cname)) if spec.on_new is not None else None
        if hasattr(spec, 'monitor_enter'): self.monitor_enter = lambda ex, st: spec.monitor_enter(ex, st, fr)
        if hasattr(spec, 'monitor_exit'): self.monitor_exit = lambda ex, st: spec.monitor_exit(ex, st, fr)
        if hasattr(spec, 'on_load'): self.on_load = lambda ex, st, r, i: spec.on_load(ex, st, fr, r, i)
        if hasattr(spec, 'on_getfield'): self.on_getfield = lambda ex, st, r, n: spec.on_getfield(ex, st, fr, r, n)
        if hasattr(spec, 'on_putfield'): self.on_putfield = lambda ex, st, r, n, v: spec.on_putfield(ex, st, fr, r, n, v)

    def allows(self, ex, exc):
        return any(ex.exc_is(exc, e) for e in self.raise_set)

    def C(self, st): return C(self.fr, st)

    def cast_ok(self, ex, st, v, cls): return self.spec.cast_ok(ex, st, self.fr, v, cls)

    def find_contract(self, ex, st, m, args):
        if ex.quiet and not ex.callstack: return None
        for s in self.spec.uses:
            if s.name != m.name and (s.sig is None or s.sig != m.desc): continue
            mm = s.find(ex.classes)
            if mm is m:
                if self.spec is s and not s.recursive: continue
                if hasattr(s, 'applies') and not s.applies(ex, st, m, args): continue
                return s
        return None

    def call_fn(self, ex, st, fn, name, args):
        return self.spec.callback(ex, st, self.fr, fn, name, args)

    # --- loops
    def loop_spec(self, ex, m, pc, locs):
        hdrs = sorted(loops(m))
        rank = hdrs.index(pc); key = (m.key, rank)
        ch = ex.choice.get(key, 0)
        n = 0; found = (None, None)
        for x in self.loop_cands(ex, m, pc, locs, rank, hdrs):
            if n == ch: found = x
            n += 1
            if n > 3: break
        ex.loopalts[key] = max(n, ex.loopalts.get(key, 0))
        return found

    def loop_cands(self, ex, m, pc, locs, rank, hdrs):
        """invariants for a loop: the ones named after its locals first, then with the roles played by other locals"""
        cands = [s for s in self.spec.loops if s.method == m.name] + sorted([s for s in self.spec.loops if s.method != m.name], key=lambda s: -len(s.vars))
        vis = {}
        for (s, l, n, d, i) in m.lvt:
            if s <= pc < s + l and locs[i] is not None: vis[n] = (i, d)
        asg = ex.assigned(m, loops(m)[pc][0]); cnt = {m.code[p].a[0] for p in loops(m)[pc][0] if m.code[p].op == 'iinc'}
        seen = []
        def fresh(s, b):
            if (id(s), b) in seen: return False
            seen.append((id(s), b)); return True
        def ok1(s, i, n): return not (n in s.assigns and i not in asg) and not (n in s.keeps and i in asg) and not (n in s.walks and (i not in asg or i in cnt))
        def role(s, b): return all(ok1(s, i, n) for n, i in b.items())
        for s in cands:
            if s.order is not None and s.method == m.name and rank != s.order and len(hdrs) > s.order: continue
            if s.guard is not None and not s.guard(ex, m, pc, locs): continue
            if all(n in vis and vis[n][1] == d for n, d in s.vars.items()):
                b = {n: vis[n][0] for n in s.vars}
                if role(s, b) and fresh(s, b): yield s, b
        # renamed locals: bindings that meet the ground entry conditions, then those that do not contradict them
        maybe = []
        for s in cands:
            if s.guard is not None and not s.guard(ex, m, pc, locs): continue
            names = list(s.vars)
            pools = []
            for n in names:
                d = s.vars[n]
                fit = [i for i in range(len(locs)) if locs[i] is not None and self.fits(ex, locs[i], d) and ok1(s, i, n)]
                if n in vis and vis[n][1] == d and vis[n][0] in fit: fit.remove(vis[n][0]); fit.insert(0, vis[n][0])
                pools.append(fit)
            tried = 0
            for combo in itertools.product(*pools):
                if len(set(combo)) != len(combo): continue
                tried += 1
                if tried > 40: break
                b = dict(zip(names, combo))
                if not fresh(s, b): continue
                r = self.plausible(ex, s, m, pc, locs, b)
                if r == 2: yield s, b
                elif r == 1: maybe.append((s, b))
        if not any(s.method == m.name for s in cands): yield None, None        # a loop of a helper: inferred
        maybe.sort(key=lambda x: (x[0].method != m.name, any(x[0].name == n for _, n in ex.loopuse)))
        for x in maybe: yield x

    def fits(self, ex, v, d):
        if isinstance(v, V): return (d in 'ZBSCI' and v.kind == 'I') or v.kind == d
        return d.startswith('L') or d.startswith('[')

    def plausible(self, ex, s, m, pc, locs, b):
        """2: the ground entry conditions hold, 1: they may, 0: they do not"""
        st = ex.cur_state; r = 2
        try:
            gh = {'iter': ex.idxc(0)}
            L = LoopView(ex, m, pc, locs, st, b, gh, entry=st, entry_locs=locs)
            for g, (sort, init, step) in s.ghost.items(): gh[g] = init(self.C(st), L)
            for lab, tags, t in s.invs(self.C(st), L):
                for x in conjuncts(t):
                    if not has_quant(x) and not ex.valid(st, x):
                        if ex.quiet: continue
                        r = 1
                        if ex.oracle is not None and not ex.oracle.feasible(list(st.pc) + [x]): return 0
        except (KeyError, AttributeError, TypeError, AssertionError, IndexError):
            return 0
        return r


def conjuncts(t):
    if t.op != 'and': return [t]
    return [y for x in t.args for y in conjuncts(x)]


LAST_ALTS = {}


def verify(spec, classes, oracle, choice=()):
    """-> (Ex with obligations, info); choice: which invariant candidate to use for a loop"""
    auto = set()
    while True:
        try: return verify1(spec, classes, oracle, auto, dict(choice))
        except NeedAuto as e:
            if e.key in auto or len(auto) > 8: raise Unsupported('loop without invariant at %s' % (e.key,))
            auto.add(e.key)


def verify1(spec, classes, oracle, auto, choice):
    ex = Ex(classes, spec.mode, oracle)
    ex.autoloops = auto; ex.choice = choice
    global LAST_ALTS
    LAST_ALTS = ex.loopalts
    if isinstance(spec, Lemma):
        for lab, tags, hyps, goal in spec.obligations(ex):
            ex.oblige(State(), 'lemma: ' + lab, goal, 'lemma', tags, spec.key(), hyps=hyps)
        return ex, {'paths': 0, 'method': spec.key()}
    if isinstance(spec, Prog):
        st = State(); fr = Frame(ex, spec, None, {}, st)
        ex.ctx = Ctx(spec, fr); ex.ctx.raise_set = {e: None for e in spec.allowed}
        ex.callstack = [spec.key()]
        spec.program(ex, st, Runner(ex, spec))
        return ex, {'paths': 1, 'method': spec.key()}
    m = spec.find(classes)
    if m is None:
        if spec.optional: return ex, {'paths': 0, 'method': spec.key()}
        raise Unsupported('method %s not found' % spec.key())
    st = State()
    this = None
    names = spec.param_names(m)
    if not m.static:
        if spec.name == '<init>':
            f = {x.name: ex.defval(x.desc) for x in classes.all_fields(spec.cls)}
            l = ex.newloc(); st.heap[l] = Obj(spec.cls, f); this = Loc(l)
            if spec.cspec is not None:
                for g, s in spec.cspec.ghosts.items(): st.heap[l].f['$' + g] = Fresh(g, s)
        else:
            this = (spec.cspec or ClassSpec(spec.cls)).make(ex, st)
    args = {}
    for n, d in zip(names, m.params):
        args[n] = spec.args_make(ex, st, n, d)
    for n in names:
        if isinstance(args[n], Fn) and n not in spec.nullable: st.assume(Ne(args[n].t, NULLF))
    fr = Frame(ex, spec, this, args, None)
    fr.pre = st
    spec.world(ex, st, fr)
    c0 = C(fr, st)
    pre = spec.pre_terms(c0)
    for lab, t in pre: st.assume(t)
    for t in getattr(spec, 'axioms', lambda c: [])(c0): st.assume(t)
    fr.pre = st.fork()
    ctx = Ctx(spec, fr)
    ctx.raise_set = spec.raises(C(fr, fr.pre))
    ex.ctx = ctx
    ex.covers['entry of ' + spec.key()] = [list(st.pc)]
    outs = ex.exec_method(st, m, ([this] if this is not None else []) + [args[n] for n in names])
    npath = 0
    ex.callstack = [spec.key()]
    for (s, k, v) in outs:
        if s.dead: continue
        npath += 1
        c = C(fr, s, v)
        where = spec.key()
        if k == 'ret':
            ex.covers.setdefault('normal return of ' + spec.key(), []).append(list(s.pc))
            for g, t in spec.witness(c).items():
                if isinstance(g, tuple): s.setf(g[0], '$' + g[1], t)
                else: s.setf(this.n, '$' + g, t)
            for g, t in spec.gwitness(c).items(): s.g[g] = t
            for t in spec.lemmas(c): s.assume(t)
            for exc, cond in ctx.raise_set.items():
                if cond is not None and not isinstance(cond, tuple):
                    ex.oblige(s, 'returns normally only when %s is not due' % exc.split('/')[-1], Not(cond), 'exceptional', spec.exc_tags, where)
                    s.assume(Not(cond))
            for lab, tags, t in spec.post_terms(c):
                ex.oblige(s, ('post: ' if not lab.startswith('invariant') else '') + lab, t, 'post', tags, where)
            frame(ex, spec, fr, s, False, where)
            if spec.fresh_arrays: ownership(ex, spec, fr, s, where)
        else:
            cls = v.cls
            hit = [(e, cnd) for e, cnd in ctx.raise_set.items() if ex.exc_is(cls, e)]
            if not hit:
                ex.oblige(s, 'no %s' % cls.split('/')[-1], FALSE, 'exceptional', spec.exc_tags, where)
                continue
            conds = [cnd[1] if isinstance(cnd, tuple) else cnd for _, cnd in hit]
            if all(x is not None for x in conds):
                ex.oblige(s, '%s only when specified' % cls.split('/')[-1], Or(*conds), 'exceptional', spec.exc_tags, where)
            for t in spec.lemmas(c) if getattr(spec, 'exc_lemmas', False) else []: s.assume(t)
            if spec.pure_fail and not any(e in spec.exc_excuse for e, _ in hit) and spec.name != '<init>':
                frame(ex, spec, fr, s, True, where)
            for lab, tags, t in spec.exc_ensures(c, cls):
                ex.oblige(s, 'post(%s): %s' % (cls.split('/')[-1], lab), t, 'post', tags, where)
    return ex, {'paths': npath, 'method': spec.key()}


def frame(ex, spec, fr, s, exceptional, where):
    fields, arrays = set(), set()
    if not exceptional:
        spec.mod_sets(ex, fr.pre, fr, fields, arrays)
        if spec.name == '<init>' and fr.this is not None:
            for n in fr.pre.heap[fr.this.n].f: fields.add((fr.this.n, n))
        for (l, n) in list(fields):
            v = fr.pre.heap[l].f[n]
            if isinstance(v, Loc): arrays.add(v.n)
    tags = spec.frame_tags if spec.frame_tags is not None else spec.tags
    what = 'unchanged when it throws: ' if exceptional else 'frame: '
    for l, r in fr.pre.heap.items():
        q = s.heap.get(l)
        if q is r: continue
        if q is None: raise Unsupported('heap record moved')
        if isinstance(r, Obj):
            for n in r.f:
                if (l, n) in fields or same(r.f[n], q.f[n]): continue
                x, y = r.f[n], q.f[n]
                if isinstance(x, Loc) and isinstance(y, Loc) and isinstance(s.heap[y.n], Arr) and isinstance(fr.pre.heap[x.n], Arr):
                    g = arr_same(fr.pre.heap[x.n], s.heap[y.n])
                else:
                    try: g = Eq(ex.fnterm(x), ex.fnterm(y)) if not isinstance(x, Term) else Eq(x, y)
                    except (Unsupported, AssertionError): g = FALSE
                ex.oblige(s, what + '%s.%s' % (r.cls.split('/')[-1], n.lstrip('$')), g, 'frame', tags, where)
        elif isinstance(r, Arr):
            if l in arrays: continue
            if r.elems is not None or q.elems is not None:
                if r.elems is not q.elems: ex.oblige(s, what + 'array', FALSE, 'frame', tags, where)
                continue
            if r.data is q.data: continue
            ex.oblige(s, what + 'array contents', arr_same(r, q), 'frame', tags, where)
        elif isinstance(r, Mat):
            if l in arrays: continue
            if r.data is q.data and r.nn is q.nn: continue
            ex.oblige(s, what + 'matrix contents', And(Eq(r.data, q.data), Eq(r.nn, q.nn)), 'frame', tags, where)


def arr_same(r, q):
    if isinstance(r.data.sort[1], tuple):      # bit-vector indices
        return And(Eq(r.len, q.len), Eq(r.data, q.data))
    k = Fresh('k', 'Int')
    return And(Eq(r.len, q.len), Implies(And(IntC(0) <= k, k < r.len), Eq(Sel(r.data, k), Sel(q.data, k))))


def ownership(ex, spec, fr, s, where):
    """array fields of live objects are distinct and never taken from elsewhere"""
    seen = {}
    pre_owner = {}
    for l, r in fr.pre.heap.items():
        if isinstance(r, Obj):
            for n, v in r.f.items():
                if isinstance(v, Loc) and isinstance(fr.pre.heap.get(v.n), (Arr, Mat)): pre_owner[v.n] = (l, n)
    bad = []
    for l, r in s.heap.items():
        if not isinstance(r, Obj): continue
        for n, v in r.f.items():
            if isinstance(v, Loc) and isinstance(s.heap.get(v.n), (Arr, Mat)) and not n.startswith('$'):
                if v.n in seen: bad.append('%s shares the array of %s' % (n, seen[v.n]))
                seen[v.n] = n
                if v.n in fr.pre.heap and v.n not in ex.static_heap and pre_owner.get(v.n, (None, None))[0] not in (l,):
                    bad.append('%s is an array owned elsewhere' % n)
    rv = None
    if bad:
        ex.oblige(s, 'ownership: ' + '; '.join(sorted(bad)), FALSE, 'ownership', spec.tags, where)
    elif fr.this is not None:
        ex.oblige(s, 'ownership of arrays', TRUE, 'ownership', spec.tags, where)
