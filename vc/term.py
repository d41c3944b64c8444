"""Hash-consed SMT terms, with light simplification and SMT-LIB printing.

Sorts: 'Int', 'Bool', 'Real', any other string (uninterpreted), ('Array', dom, rng), ('BV', n), ('FP', e, s).
"""
import itertools, hashlib

_table = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


class Term:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', '_fv', '_q')

    def __hash__(self):
        return self.id

    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool: %s' % self)

    # boolean
    def __and__(self, o): return And(self, o)
    def __rand__(self, o): return And(o, self)
    def __or__(self, o): return Or(self, o)
    def __ror__(self, o): return Or(o, self)
    def __invert__(self): return Not(self)
    # equality
    def __eq__(self, o): return Eq(self, lift(o, self.sort))
    def __ne__(self, o): return Not(Eq(self, lift(o, self.sort)))
    # arithmetic
    def __add__(self, o): return Add(self, lift(o, self.sort))
    def __radd__(self, o): return Add(lift(o, self.sort), self)
    def __sub__(self, o): return Sub(self, lift(o, self.sort))
    def __rsub__(self, o): return Sub(lift(o, self.sort), self)
    def __mul__(self, o): return Mul(self, lift(o, self.sort))
    def __rmul__(self, o): return Mul(lift(o, self.sort), self)
    def __neg__(self): return Sub(lift(0, self.sort), self)
    def __lt__(self, o): return Lt(self, lift(o, self.sort))
    def __le__(self, o): return Le(self, lift(o, self.sort))
    def __gt__(self, o): return Lt(lift(o, self.sort), self)
    def __ge__(self, o): return Le(lift(o, self.sort), self)
    def __getitem__(self, i): return Sel(self, lift(i, self.sort[1]))
    def __str__(self): return to_str(self)
    __repr__ = __str__


def _mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _table.get(key)
    if t is None:
        t = object.__new__(Term)
        t.op = op; t.args = tuple(args); t.sort = sort; t.data = data; t.id = next(_ids)
        t._fv = None; t._q = None
        _table[key] = t
    return t


def is_bv(s): return isinstance(s, tuple) and s[0] == 'BV'
def is_fp(s): return isinstance(s, tuple) and s[0] == 'FP'
def is_arr(s): return isinstance(s, tuple) and s[0] == 'Array'


def IntC(v): return _mk('int', (), 'Int', int(v))
def RealC(v): return _mk('real', (), 'Real', v)
def BoolC(b): return TRUE if b else FALSE
def BVC(v, n): return _mk('bvc', (), ('BV', n), int(v) & ((1 << n) - 1))
TRUE = _mk('true', (), 'Bool')
FALSE = _mk('false', (), 'Bool')
def Const(name, sort): return _mk('const', (), sort, name)


def Fresh(base, sort):
    return _mk('const', (), sort, '%s!%d' % (base, next(_fresh)))


def App(fname, sort, *args):
    """uninterpreted function"""
    return _mk('app', args, sort, fname)


def Op(sym, sort, *args):
    """raw SMT-LIB operator (symbol may be indexed, e.g. '(_ extract 7 0)')"""
    return _mk('raw', args, sort, sym)


def lift(v, sort):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return BoolC(v)
    if isinstance(v, int):
        if sort == 'Int': return IntC(v)
        if sort == 'Real': return RealC(v)
        if is_bv(sort): return BVC(v, sort[1])
        if sort == 'Bool': return BoolC(v != 0)
    raise TypeError('cannot lift %r to %s' % (v, sort))


def is_const(t): return t.op in ('int', 'bvc', 'true', 'false', 'real')


def val(t):
    """python value of a constant (BV: signed)"""
    if t.op in ('int', 'real'): return t.data
    if t.op == 'bvc':
        n = t.sort[1]
        return t.data - (1 << n) if t.data >> (n - 1) else t.data
    if t.op == 'true': return True
    if t.op == 'false': return False
    raise ValueError


# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,), 'Bool')


def _flat(op, xs):
    out = []; seen = set()
    def go(x):
        if x.op == op:
            for y in x.args: go(y)
        elif x.id not in seen:
            seen.add(x.id); out.append(x)
    for x in xs: go(x)
    return out, seen


def And(*xs):
    if len(xs) == 1 and not isinstance(xs[0], Term): xs = tuple(xs[0])
    xs = [lift(x, 'Bool') for x in xs]
    if any(x is FALSE for x in xs): return FALSE
    out, seen = _flat('and', [x for x in xs if x is not TRUE])
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk('and', out, 'Bool')


def Or(*xs):
    if len(xs) == 1 and not isinstance(xs[0], Term): xs = tuple(xs[0])
    xs = [lift(x, 'Bool') for x in xs]
    if any(x is TRUE for x in xs): return TRUE
    out, seen = _flat('or', [x for x in xs if x is not FALSE])
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk('or', out, 'Bool')


def Implies(a, b):
    a = lift(a, 'Bool'); b = lift(b, 'Bool')
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    return _mk('=>', (a, b), 'Bool')


def Iff(a, b): return Eq(a, b)


def Ite(c, a, b):
    if not isinstance(a, Term): a = lift(a, b.sort)
    if not isinstance(b, Term): b = lift(b, a.sort)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'Bool':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
    if c.op == 'not': return Ite(c.args[0], b, a)
    assert a.sort == b.sort, (a.sort, b.sort, str(a), str(b))
    return _mk('ite', (c, a, b), a.sort)


def Eq(a, b):
    if not isinstance(a, Term): a = lift(a, b.sort)
    if not isinstance(b, Term): b = lift(b, a.sort)
    if a is b: return TRUE
    assert a.sort == b.sort, ('sort mismatch', a.sort, b.sort, str(a), str(b))
    if is_const(a) and is_const(b): return FALSE
    if a.sort == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
    if a.sort == 'Int':
        d = Sub(a, b)
        if d.op == 'int': return BoolC(d.data == 0)
    for x, y in ((a, b), (b, a)):     # ite(c,k1,k2) == k3 with constants
        if x.op == 'ite' and is_const(y) and (is_const(x.args[1]) or is_const(x.args[2])):
            return Ite(x.args[0], Eq(x.args[1], y), Eq(x.args[2], y))
    if a.id > b.id: a, b = b, a
    return _mk('=', (a, b), 'Bool')


def Ne(a, b): return Not(Eq(a, b))


# ---------------------------------------------------------------- integers (linear normal form)
def _lin(t):
    """-> (const, {term: coef})"""
    if t.op == 'int': return t.data, {}
    if t.op == 'sum':
        return t.data[0], {a: c for a, c in zip(t.args, t.data[1])}
    return 0, {t: 1}


def _unlin(c, d):
    items = sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id)
    if not items: return IntC(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return _mk('sum', tuple(t for t, _ in items), 'Int', (c, tuple(k for _, k in items)))


def Add(a, b):
    if a.sort == 'Int':
        c1, d1 = _lin(a); c2, d2 = _lin(b)
        d = dict(d1)
        for t, k in d2.items(): d[t] = d.get(t, 0) + k
        return _unlin(c1 + c2, d)
    if is_bv(a.sort):
        if is_const(a) and is_const(b): return BVC(a.data + b.data, a.sort[1])
        if is_const(b) and b.data == 0: return a
        if is_const(a) and a.data == 0: return b
        return Op('bvadd', a.sort, a, b)
    return Op('+', a.sort, a, b)


def Sub(a, b):
    if a.sort == 'Int':
        c1, d1 = _lin(a); c2, d2 = _lin(b)
        d = dict(d1)
        for t, k in d2.items(): d[t] = d.get(t, 0) - k
        return _unlin(c1 - c2, d)
    if is_bv(a.sort):
        if is_const(a) and is_const(b): return BVC(a.data - b.data, a.sort[1])
        if is_const(b) and b.data == 0: return a
        return Op('bvsub', a.sort, a, b)
    return Op('-', a.sort, a, b)


def Mul(a, b):
    if a.sort == 'Int':
        if b.op == 'int': a, b = b, a
        if a.op == 'int':
            c, d = _lin(b)
            return _unlin(c * a.data, {t: k * a.data for t, k in d.items()})
        if a.id > b.id: a, b = b, a
        return Op('*', 'Int', a, b)
    if is_bv(a.sort):
        if is_const(a) and is_const(b): return BVC(a.data * b.data, a.sort[1])
        return Op('bvmul', a.sort, a, b)
    return Op('*', a.sort, a, b)


def Le(a, b):
    if a.sort == 'Int':
        d = Sub(a, b)
        if d.op == 'int': return BoolC(d.data <= 0)
        return _mk('<=', (a, b), 'Bool')
    if is_bv(a.sort):
        if is_const(a) and is_const(b): return BoolC(val(a) <= val(b))
        if a is b: return TRUE
        return Op('bvsle', 'Bool', a, b)
    return Op('<=', 'Bool', a, b)


def Lt(a, b):
    if a.sort == 'Int':
        d = Sub(a, b)
        if d.op == 'int': return BoolC(d.data < 0)
        return Not(_mk('<=', (b, a), 'Bool'))
    if is_bv(a.sort):
        if is_const(a) and is_const(b): return BoolC(val(a) < val(b))
        if a is b: return FALSE
        return Op('bvslt', 'Bool', a, b)
    return Op('<', 'Bool', a, b)


def DivE(a, k):
    """floor division by a positive constant"""
    if a.op == 'int': return IntC(a.data // k)
    return _mk('raw', (a, IntC(k)), 'Int', 'div')


def ModE(a, k):
    if a.op == 'int': return IntC(a.data % k)
    return _mk('raw', (a, IntC(k)), 'Int', 'mod')


def between(lo, x, hi):
    return And(lift(lo, 'Int') <= x, x < hi)


# ---------------------------------------------------------------- arrays
def ArrS(dom, rng): return ('Array', dom, rng)


def Sel(a, i):
    while a.op == 'store':
        j = a.args[1]
        if j is i: return a.args[2]
        if Eq(i, j) is FALSE: a = a.args[0]; continue
        break
    if a.op == 'constarr': return a.args[0]
    return _mk('select', (a, i), a.sort[2])


def Sto(a, i, v):
    if a.op == 'store' and a.args[1] is i: a = a.args[0]
    assert v.sort == a.sort[2], (v.sort, a.sort, str(v))
    return _mk('store', (a, i, v), a.sort)


def ConstArr(sort, v): return _mk('constarr', (v,), sort)


# ---------------------------------------------------------------- quantifiers
def Forall(sorts, fn, pats=None):
    """Forall('Int', lambda i: body, lambda i: [pattern, (multi, pattern)])"""
    return _quant('forall', sorts, fn, pats)


def Exists(sorts, fn):
    return _quant('exists', sorts, fn, None)


_depth = 0


def _quant(kind, sorts, fn, pats):
    if not isinstance(sorts, list): sorts = [sorts]
    # bound variables are named by nesting depth, so that formulas equal up to renaming are one term
    global _depth
    vs = [_mk('const', (), s, '?b%s!%d.%d' % (sort_str(s), _depth, i)) for i, s in enumerate(sorts)]
    _depth += 1
    try:
        body = fn(*vs)
        if body is TRUE or body is FALSE: return body
        ps = pats(*vs) if pats is not None else ()
    finally: _depth -= 1
    if pats is not None:
        ps = tuple(p if isinstance(p, tuple) else (p,) for p in (ps if isinstance(ps, list) else [ps]))
    return mkquant(kind, tuple(vs), body, ps)


def mkquant(kind, vs, body, ps):
    if body is TRUE or body is FALSE: return body
    ps = tuple(g for g in ps if _goodpat(vs, g))
    flat = [p for g in ps for p in g]
    return _mk(kind, (body,) + tuple(vs) + tuple(flat), 'Bool', (len(vs), tuple(len(g) for g in ps)))


def _occ(t, ids):
    if t.id in ids: return {t.id}
    r = set()
    for a in t.args: r |= _occ(a, ids)
    return r


def _goodpat(vs, g):
    ids = {v.id for v in vs}; seen = set()
    for p in g:
        if p.op not in ('select', 'app'): return False
        o = _occ(p, ids)
        if not o: return False
        seen |= o
    return seen == ids


def qparts(t):
    nv, lens = t.data
    body = t.args[0]; vs = t.args[1:1 + nv]
    rest = list(t.args[1 + nv:]); ps = []
    for n in lens: ps.append(tuple(rest[:n])); rest = rest[n:]
    return vs, body, tuple(ps)


def has_quant(t):
    if t._q is None:
        t._q = t.op in ('forall', 'exists') or any(has_quant(a) for a in t.args)
    return t._q


def subst(t, m):
    """m: dict Term(const)->Term"""
    cache = {}
    mm = {k.id: v for k, v in m.items()}
    def go(t):
        r = cache.get(t.id)
        if r is not None: return r
        if t.id in mm: r = mm[t.id]
        elif not t.args: r = t
        elif t.op in ('forall', 'exists'):
            vs, body, ps = qparts(t)
            if any(v.id in mm for v in vs):       # shadowed
                m2 = {k: v for k, v in m.items() if all(k.id != w.id for w in vs)}
                sub = lambda x: subst(x, m2) if m2 else x
            else: sub = go
            r = mkquant(t.op, vs, sub(body), tuple(tuple(sub(p) for p in g) for g in ps))
        else:
            a = [go(x) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        cache[t.id] = r
        return r
    return go(t)


def rebuild(t, a):
    o = t.op
    if o == 'not': return Not(a[0])
    if o == 'and': return And(*a)
    if o == 'or': return Or(*a)
    if o == '=>': return Implies(*a)
    if o == 'ite': return Ite(*a)
    if o == '=': return Eq(*a)
    if o == '<=': return Le(*a)
    if o == 'select': return Sel(*a)
    if o == 'store': return Sto(*a)
    if o == 'sum':
        r = IntC(t.data[0])
        for x, k in zip(a, t.data[1]): r = Add(r, Mul(IntC(k), x))
        return r
    return _mk(o, a, t.sort, t.data)


# ---------------------------------------------------------------- printing
def sort_str(s):
    if isinstance(s, str): return s
    if s[0] == 'Array': return '(Array %s %s)' % (sort_str(s[1]), sort_str(s[2]))
    if s[0] == 'BV': return '(_ BitVec %d)' % s[1]
    if s[0] == 'FP': return '(_ FloatingPoint %d %d)' % (s[1], s[2])
    raise ValueError(s)


BUILTIN = {'Int', 'Bool', 'Real', 'RoundingMode'}


_hcache = {}


def shash(t):
    """structural key of a term, independent of the order in which terms were made"""
    h = _hcache.get(t.id)
    if h is None:
        d = t.data
        if t.op == 'const': d = d if '?' in d else d.split('!')[0]
        if t.op == 'sum': parts = sorted((shash(a), k) for a, k in zip(t.args, t.data[1])); d = t.data[0]
        elif t.op == '=' or t.op == 'raw' and d == '*': parts = sorted(shash(a) for a in t.args)
        else: parts = [shash(a) for a in t.args]
        h = hashlib.md5(repr((t.op, d, t.sort, parts)).encode()).hexdigest()
        _hcache[t.id] = h
    return h


_closed = {}


def is_closed(t):
    """no bound variable occurs and no quantifier"""
    r = _closed.get(t.id)
    if r is None:
        if t.op == 'const': r = not t.data.startswith('?b')
        elif t.op in ('forall', 'exists'): r = False
        else: r = all(is_closed(a) for a in t.args)
        _closed[t.id] = r
    return r


_tpl = {}          # term id -> (items, size): text of the term, with constants, definitions, functions and sorts left open
DEF_SIZE = 5


def tpl(t):
    """items: text, Term (a constant or a term to be defined), ('f', term) a function symbol, ('s', sort)"""
    r = _tpl.get(t.id)
    if r is None:
        it = []; n = [1]
        def sub(a):
            if a.op == 'const': it.append(a); n[0] += 1; return
            x, k = tpl(a)
            if k >= DEF_SIZE and is_closed(a): it.append(a); n[0] += 1
            else: it.extend(x); n[0] += k
        def subs(xs):
            for a in xs: it.append(' '); sub(a)
        o = t.op
        if o == 'const': it.append(t)
        elif o == 'int': it.append(str(t.data) if t.data >= 0 else '(- %d)' % -t.data)
        elif o == 'real': it.append('%d.0' % t.data if t.data >= 0 else '(- %d.0)' % -t.data)
        elif o == 'bvc': it.append('(_ bv%d %d)' % (t.data, t.sort[1]))
        elif o in ('true', 'false'): it.append(o)
        elif o == 'sum':
            c, ks = t.data
            one = len(t.args) + (1 if c else 0) == 1
            if not one: it.append('(+')
            for a, k in sorted(zip(t.args, ks), key=lambda x: shash(x[0])):
                if not one: it.append(' ')
                if k == 1: sub(a)
                elif k == -1: it.append('(- '); sub(a); it.append(')')
                else: it.append('(* %s ' % (k if k >= 0 else '(- %d)' % -k)); sub(a); it.append(')')
            if c: it.append(' %d' % c if c >= 0 else ' (- %d)' % -c)
            if not one: it.append(')')
        elif o == 'constarr':
            it += ['((as const ', ('s', t.sort), ') ']; sub(t.args[0]); it.append(')')
        elif o in ('forall', 'exists'):
            vs, body, ps = qparts(t)
            it.append('(%s (' % o)
            for v in vs: it += ['(', v, ' ', ('s', v.sort), ')']
            it.append(') ')
            if ps: it.append('(! ')
            sub(body)
            for g in ps:
                it.append(' :pattern ('); subs(g); it.append(')')
            it.append('))' if ps else ')')
        elif o == 'app':
            if not t.args: it.append(('f', t))
            else: it += ['(', ('f', t)]; subs(t.args); it.append(')')
        else:
            sym = t.data if o == 'raw' else o
            if not t.args: it.append(sym)
            else:
                it.append('(' + sym); subs(sorted(t.args, key=shash) if sym in ('=', '*') else t.args); it.append(')')
        m = []
        for x in it:
            if isinstance(x, str) and m and isinstance(m[-1], str): m[-1] += x
            else: m.append(x)
        r = _tpl[t.id] = (m, n[0])
    return r


class Printer:
    """Prints a set of assertions with canonical names; larger closed subterms become definitions."""
    def __init__(self):
        self.names = {}      # term id -> name of a constant or definition
        self.used = {}
        self.decls = []
        self.funs = set()
        self.sorts = []
        self.nd = 0
        self.out = []
        self.bn = 0

    def sort(self, s):
        if isinstance(s, tuple):
            if s[0] == 'Array': self.sort(s[1]); self.sort(s[2])
        elif s not in BUILTIN and s not in self.sorts:
            self.sorts.append(s)
        return sort_str(s)

    def name(self, t):
        base = t.data.split('!')[0]
        for ch in '$.<>[];/ ': base = base.replace(ch, '_')
        if '?' in base:
            self.bn += 1; n = 'b%d' % self.bn
        else:
            k = self.used.get(base, 0); self.used[base] = k + 1
            n = '%s_%d' % (base, k) if ('!' in t.data or k) else base
            self.decls.append('(declare-const %s %s)' % (n, self.sort(t.sort)))
        self.names[t.id] = n
        return n

    def emit(self, items):
        out = []; names = self.names
        for x in items:
            if x.__class__ is str: out.append(x)
            elif x.__class__ is tuple:
                if x[0] == 's': out.append(self.sort(x[1]))
                else:
                    t = x[1]
                    if t.data not in self.funs:
                        self.funs.add(t.data)
                        self.decls.append('(declare-fun %s (%s) %s)' % (t.data, ' '.join(self.sort(a.sort) for a in t.args), self.sort(t.sort)))
                    out.append(t.data)
            else:
                n = names.get(x.id)
                if n is None:
                    if x.op == 'const': n = self.name(x)
                    else:
                        s = self.emit(tpl(x)[0])
                        n = 'd%d' % self.nd; self.nd += 1
                        self.out.append('(define-fun %s () %s %s)' % (n, self.sort(x.sort), s))
                        names[x.id] = n
                out.append(n)
        return ''.join(out)

    def p(self, t): return self.emit(tpl(t)[0])

    def script(self, asserts):
        """asserts: list of terms. -> SMT-LIB text without set-logic/check-sat"""
        body = []
        for a in asserts:
            s = self.p(a)
            if self.out: body.extend(self.out); self.out = []
            body.append('(assert %s)' % s)
        # declarations must precede; definitions are interleaved with assertions
        pre = ['(declare-sort %s 0)' % s for s in self.sorts]
        return '\n'.join(pre + self.decls + body) + '\n'


def to_str(t):
    p = Printer()
    try:
        return p.p(t)
    except RecursionError:
        return '<deep term>'


def push_stores(t):
    """select(store(a, i, v), j) written as a case distinction, outside quantifiers"""
    cache = {}
    def go(t):
        r = cache.get(t.id)
        if r is not None: return r
        if not t.args or t.op in ('forall', 'exists'): r = t
        else:
            a = [go(x) for x in t.args]
            if t.op == 'select':
                r = sel(a[0], a[1])
            else: r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        cache[t.id] = r
        return r
    def sel(b, j):
        if b.op == 'store': return Ite(Eq(b.args[1], j), b.args[2], sel(b.args[0], j))
        return Sel(b, j)
    return go(t)


_bnames = {}


def base_names(t):
    """names (without numbering) of the constants and functions in t"""
    r = _bnames.get(t.id)
    if r is None:
        if t.op == 'const': r = frozenset([t.data.split('!')[0]]) if '?' not in t.data else frozenset()
        else:
            r = frozenset()
            for a in t.args: r = r | base_names(a)
        _bnames[t.id] = r
    return r


def _limit(t): return t.op == 'int' and t.data in LIMITS
LIMITS = {0, 1, 127, -128, 128, 32767, -32768, 65535, 65536, 2**31 - 1, -2**31, 2**63 - 1, -2**63}


def _root(t):
    while t.op == 'select': t = t.args[0]
    return t


MADE = frozenset(['copied', 'filled', 'grown', 'grown_len', 'ensureSize', 'ensureSize_len', 'copyOf', 'copyOf_len', 'create', 'create_len'])


def reduce_hyps(hyps, goal, elems, side):
    """drop machine ranges of stored elements, facts about the arrays named in side when the goal does not mention them, and repetitions"""
    gn = base_names(goal); out = []; seen = set()
    drop = side if not ((side | MADE) & gn) else frozenset()
    for h in hyps:
        if h.id in seen: continue
        seen.add(h.id)
        a = h.args[0] if h.op == 'not' else h
        if a.op == '<=':
            x, y = a.args
            v = y if _limit(x) else x if _limit(y) else None
            if v is not None:
                r = _root(v)
                if r.op == 'const' and r.data.split('!')[0] in elems: continue
        if drop and drop & base_names(h): continue
        out.append(h)
    return out
