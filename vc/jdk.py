"""Assumed contracts of the JDK methods the library calls. Everything here is part of the trusted base."""
from .term import *
from .dom import *

TRUSTED_USED = set()

KINDS = {'java/lang/Byte': 1, 'java/lang/Short': 2, 'java/lang/Integer': 3, 'java/lang/Long': 4, 'java/lang/Float': 5,
         'java/lang/Double': 6, 'othernumber': 7, 'java/lang/String': 8, 'java/lang/Boolean': 9,
         'java/time/LocalDate': 10, 'java/time/LocalTime': 11, 'java/lang/Character': 12, 'java/util/Date': 13}
BOXED = {'java/lang/Byte': 'B', 'java/lang/Short': 'S', 'java/lang/Integer': 'I', 'java/lang/Long': 'J',
         'java/lang/Float': 'F', 'java/lang/Double': 'D', 'java/lang/Boolean': 'Z', 'java/lang/Character': 'C'}


def kind_of(t): return App('kindof', 'Int', t)


def kind_is(ex, v, cls):
    if v is NULL: return FALSE
    t = ex.term(v)
    nn = Ne(t, NULLE)
    if cls == 'java/lang/Number':
        k = kind_of(t); return And(nn, k >= 1, k <= 7)
    if cls == 'java/lang/Object': return nn
    if cls in KINDS: return And(nn, Eq(kind_of(t), IntC(KINDS[cls])))
    return And(nn, App('is_' + cls.replace('/', '_').replace('$', '_'), 'Bool', t))


class ClsOf(Ref):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


def getstatic(ex, st, c, name, desc):
    raise Unsupported('static field %s.%s' % (c, name))


def new(ex, st, cname):
    if ex._is_exc(cname): return Exc(cname)
    return Junk(cname)


def checkcast(ex, st, v, cls):
    """checked casts of opaque references; erased casts to Object and interfaces of no interest pass"""
    if cls in ('java/lang/Object', 'java/lang/Comparable', 'java/util/Enumeration', 'java/net/NetworkInterface') or cls.startswith('['):
        return None
    if ex.ctx is not None and ex.ctx.cast_ok(ex, st, v, cls):
        return None
    outs = ex.check(st, Or(Eq(v.t, NULLE), kind_is(ex, v, cls)), 'ClassCastException', cls)
    return outs, v


def adapt(ex, st, v, p):
    if p is None or not isinstance(v, V): return v
    if p.startswith('L') or p.startswith('['):
        return box(ex, st, v, {'Z': 'java/lang/Boolean', 'C': 'java/lang/Character', 'B': 'java/lang/Byte', 'S': 'java/lang/Short',
                               'I': 'java/lang/Integer', 'J': 'java/lang/Long', 'F': 'java/lang/Float', 'D': 'java/lang/Double'}[v.jt])
    return v


def box(ex, st, v, cls):
    s = cls.split('/')[-1]
    if v.t.sort == 'Real': return Opq(Fresh('boxed', 'E'))
    t = App('box_' + s, 'E', v.t)
    st.assume(kind_is(ex, Opq(t), cls))
    st.assume(Eq(App('unbox_' + s, v.t.sort, t), v.t))
    return Opq(t)


def numval(ex, st, t, to):
    """Number.xxxValue(): for the boxed types, the Java conversion of the boxed primitive"""
    D = ex.dom
    r = App('Number_%sValue' % {'B': 'byte', 'S': 'short', 'I': 'int', 'J': 'long', 'F': 'float', 'D': 'double'}[to], D.sort(to), t)
    if to in 'BSIJ': st.assume(D.inrange(r, to))
    for cls, k in BOXED.items():
        if k in 'ZC': continue
        u = App('unbox_' + cls.split('/')[-1], D.sort(k), t)
        if ex.mode == 'int' and (k in 'FD' or to in 'FD') and k != to: continue
        if k == to: c = u
        elif ex.mode == 'bv' and k in 'FD' and to in 'BS': c = D.conv(ex, st, 'I', to, D.conv(ex, st, k, 'I', u))
        else: c = D.conv(ex, st, k if k in 'JFD' else 'I', to, u) if not (k in SUB.get(to, '')) else u
        st.assume(Implies(kind_is(ex, Opq(t), cls), Eq(r, c)))
    return V('I' if to in 'BSI' else to, r, to)


def nlz(ex, t):
    r = BVC(32, 32)
    for i in range(32):
        bit = Eq(Op('(_ extract %d %d)' % (i, i), ('BV', 1), t), BVC(1, 1))
        r = Ite(bit, BVC(31 - i, 32), r)
    return r


def ntz(ex, t):
    r = BVC(64, 32)
    for i in range(63, -1, -1):
        bit = Eq(Op('(_ extract %d %d)' % (i, i), ('BV', 1), t), BVC(1, 1))
        r = Ite(bit, BVC(i, 32), r)
    return r


def fcompare(ex, k, a, b):
    """Float/Double.compare"""
    c = lambda v: ex.dom.const('I', v)
    if ex.mode == 'int': return App('Compare_' + k, 'Int', a, b)
    D = ex.dom
    x, y = D.fp(k, a), D.fp(k, b)
    nan = lambda z: Op('fp.isNaN', 'Bool', z)
    neg = lambda z: Op('fp.isNegative', 'Bool', z)
    return Ite(And(nan(x), nan(y)), c(0), Ite(nan(x), c(1), Ite(nan(y), c(-1),
           Ite(Op('fp.lt', 'Bool', x, y), c(-1), Ite(Op('fp.lt', 'Bool', y, x), c(1),
           Ite(And(neg(x), Not(neg(y))), c(-1), Ite(And(neg(y), Not(neg(x))), c(1), c(0))))))))


def ret(st, v=None): return [(st, 'ret', v)]


def seg_copy(ex, st, src, sp, dst, dp, n):
    """dst[dp..dp+n) = src[sp..)"""
    nd = Fresh('copied', dst.data.sort)
    D = ex.dom
    s, d = src.data, dst.data
    if ex.mode == 'int':
        st.assume(Forall('Int', lambda k: Eq(Sel(nd, k), Ite(And(dp <= k, k < dp + n), Sel(s, k - dp + sp), Sel(d, k))), lambda k: Sel(nd, k)))
    else:
        raise Unsupported('arraycopy in bit-vector mode')
    return nd


def seg_fill(ex, st, arr, frm, to, v):
    if (frm.op == 'int' and frm.data == 0 or is_const(frm) and val(frm) == 0) and to is arr.len: return ConstArr(arr.data.sort, v)
    nd = Fresh('filled', arr.data.sort)
    if ex.mode != 'int': raise Unsupported('fill in bit-vector mode')
    d = arr.data
    st.assume(Forall('Int', lambda k: Eq(Sel(nd, k), Ite(And(frm <= k, k < to), v, Sel(d, k))), lambda k: Sel(nd, k)))
    return nd


def copy_of(ex, st, ar, n):
    """contents of Arrays.copyOf: source prefix then defaults"""
    nd = Fresh('copyOf', ar.data.sort)
    if ex.mode != 'int': raise Unsupported('copyOf in bit-vector mode')
    d = ar.data; ln = ar.len
    st.assume(Forall('Int', lambda k: Eq(Sel(nd, k), Ite(And(IntC(0) <= k, k < ln, k < n), Sel(d, k), ex.dom.default(ar.ety))), lambda k: Sel(nd, k)))
    return nd


def call(ex, st, op, cname, name, desc, args):
    from .symex import Arr, Mat, Obj
    D = ex.dom
    I = lambda t, jt='I': V('I', t, jt)
    recv = args[0] if args else None
    key = cname + '.' + name
    if name == '<init>':
        if isinstance(recv, (Exc, Junk)): return ret(st)
        if cname == 'java/lang/Enum': st.setf(recv.n, '#ordinal', args[2]); return ret(st)
        if cname == 'java/lang/Object': return ret(st)
        return None
    if isinstance(recv, Exc): return None
    if isinstance(recv, Loc) and isinstance(st.heap.get(recv.n), Obj) and '#ordinal' in st.heap[recv.n].f and len(args) == 1:
        if name == 'ordinal': return ret(st, st.heap[recv.n].f['#ordinal'])
        if name in ('name', 'toString'): return ret(st, Str())
    TRUSTED_USED.add(key)
    if key == 'java/lang/Object.getClass':
        return ret(st, ClsOf(recv) if isinstance(recv, (Opq, Str)) else Junk('class'))
    if key == 'java/lang/Class.isAssignableFrom':
        if isinstance(recv, Cls) and isinstance(args[1], ClsOf):
            return ret(st, I(Ite(kind_is(ex, args[1].v, recv.name), D.const('I', 1), D.const('I', 0)), 'Z'))
        return None
    if key in ('java/lang/Class.getName', 'java/lang/String.format') or (key == 'java/lang/String.valueOf'):
        return ret(st, Str())
    if name == 'clone' and cname.startswith('['):
        a = st.heap[recv.n]; l = ex.newloc()
        st.heap[l] = Arr(a.ety, a.len, a.data, list(a.elems) if a.elems is not None else None, a.desc)
        return ret(st, Loc(l))
    if cname in BOXED and name == 'valueOf' and len(args) == 1 and isinstance(args[0], V):
        v = args[0]
        k = BOXED[cname]
        return ret(st, box(ex, st, V(v.kind, v.t, k), cname))
    if key == 'java/lang/Boolean.booleanValue':
        t = App('unbox_Boolean', D.sort('Z'), ex.term(recv)); st.assume(D.inrange(t, 'Z')); return ret(st, I(t, 'Z'))
    if key == 'java/lang/Character.charValue':
        t = App('unbox_Character', D.sort('C'), ex.term(recv)); st.assume(D.inrange(t, 'C')); return ret(st, I(t, 'C'))
    if cname in ('java/lang/Number',) + tuple(c for c in BOXED if c not in ('java/lang/Boolean', 'java/lang/Character')) and name.endswith('Value') and isinstance(recv, Opq):
        to = {'byte': 'B', 'short': 'S', 'int': 'I', 'long': 'J', 'float': 'F', 'double': 'D'}[name[:-5]]
        return ret(st, numval(ex, st, recv.t, to))
    if name.startswith('parse') and cname.startswith('java/lang/') and op == 'invokestatic':
        k = {'parseInt': 'I', 'parseLong': 'J', 'parseShort': 'S', 'parseByte': 'B', 'parseFloat': 'F', 'parseDouble': 'D',
             'parseBoolean': 'Z'}[name]
        t = ex.term(recv)
        r = App(name, D.sort(k), t)
        if k in 'ZBSIJ': st.assume(D.inrange(r, k))
        v = V('I' if k in 'ZBSI' else k, r, k)
        if k == 'Z': return ret(st, v)
        outs = ex.check(st, App(name + '_ok', 'Bool', t), 'NullPointerException' if k in 'FD' and recv is NULL else 'NumberFormatException', name)
        return outs + ([] if st.dead else ret(st, v))
    if name == 'compareTo' and cname in BOXED and isinstance(recv, Opq) and isinstance(args[1], Opq) and desc != '(Ljava/lang/Object;)I':
        k = BOXED[cname]; u = [App('unbox_' + cname.split('/')[-1], D.sort(k), x.t) for x in args[:2]]
        if k in 'ZBSCIJ':
            for x in u: st.assume(D.inrange(x, k))
        n = 'compare'
        vs = [V('I' if k in 'ZBSCI' else k, x, k) for x in u]
        return call(ex, st, 'invokestatic', cname, n, None, vs)
    if key == 'java/lang/Integer.toString' and op == 'invokestatic':
        t = App('Integer_toString', 'E', recv.t); st.assume(kind_is(ex, Opq(t), 'java/lang/String'))
        st.assume(And(App('parseInt_ok', 'Bool', t), Eq(App('parseInt', D.sort('I'), t), recv.t)))
        return ret(st, Opq(t))
    if key == 'java/lang/Object.toString':
        t = App('toString', 'E', ex.term(recv)); st.assume(kind_is(ex, Opq(t), 'java/lang/String'))
        if isinstance(recv, Opq):
            st.assume(Implies(kind_is(ex, recv, 'java/lang/String'), Eq(t, recv.t)))
            if ex.mode == 'int' or True:
                st.assume(Implies(kind_is(ex, recv, 'java/lang/Integer'),
                                  And(App('parseInt_ok', 'Bool', t), Eq(App('parseInt', D.sort('I'), t), App('unbox_Integer', D.sort('I'), recv.t)))))
        return ret(st, Opq(t))
    if key == 'java/lang/String.length':
        r = App('String_length', D.sort('I'), ex.term(recv)); st.assume(And(D.ge0(r), D.inrange(r, 'I'))); return ret(st, I(r))
    if key == 'java/lang/String.charAt':
        r = App('String_charAt', D.sort('C'), ex.term(recv), args[1].t); st.assume(D.inrange(r, 'C'))
        ln = App('String_length', D.sort('I'), ex.term(recv))
        outs = ex.check(st, And(D.ge0(args[1].t), D.lt(args[1].t, ln)), 'IndexOutOfBoundsException', 'charAt')
        return outs + ret(st, I(r, 'C'))
    if key in ('java/lang/String.hashCode', 'java/lang/Object.hashCode'):
        r = App('hashCode', D.sort('I'), ex.term(recv)); st.assume(D.inrange(r, 'I')); return ret(st, I(r))
    if key in ('java/lang/Long.hashCode', 'java/lang/Double.hashCode', 'java/lang/Float.hashCode', 'java/lang/Integer.hashCode',
               'java/lang/Boolean.hashCode', 'java/lang/Short.hashCode', 'java/lang/Byte.hashCode', 'java/lang/Character.hashCode') and isinstance(recv, V):
        if ex.mode != 'bv': return None
        if recv.kind == 'I':
            if key == 'java/lang/Boolean.hashCode': return ret(st, I(Ite(Eq(recv.t, BVC(0, 32)), BVC(1237, 32), BVC(1231, 32))))
            return ret(st, I(recv.t))
        t = recv.t
        if recv.kind in 'FD': t = Ite(Op('fp.isNaN', 'Bool', D.fp(recv.kind, t)), BVC(0x7fc00000, 32) if recv.kind == 'F' else BVC(0x7ff8 << 48, 64), t)
        if recv.kind == 'F': return ret(st, I(t))
        x = Op('bvxor', ('BV', 64), t, Op('bvlshr', ('BV', 64), t, BVC(32, 64)))
        return ret(st, I(D.ext(x, 32)))
    if key == 'java/util/Objects.equals':
        return ret(st, I(Ite(objeq(ex, args[0], args[1]), D.const('I', 1), D.const('I', 0)), 'Z'))
    if key in ('java/lang/String.equals', 'java/lang/Object.equals') or name == 'equals' and cname in BOXED:
        return ret(st, I(Ite(objeq(ex, args[0], args[1]), D.const('I', 1), D.const('I', 0)), 'Z'))
    if key in ('java/lang/Thread.onSpinWait', 'java/lang/Thread.yield'): return ret(st, None)
    if key == 'java/util/Objects.requireNonNull':
        outs = ex.nn(st, recv, 'requireNonNull')
        return outs + ([] if st.dead else ret(st, recv))
    if key in ('java/lang/String.compareTo', 'java/lang/String.compareToIgnoreCase', 'java/lang/Comparable.compareTo'):
        n = key.split('/')[-1].replace('.', '_')
        outs = ex.check(st, Ne(ex.term(args[1]), NULLE), 'NullPointerException', name)
        r = App(n, D.sort('I'), ex.term(args[0]), ex.term(args[1])); st.assume(D.inrange(r, 'I'))
        return outs + ret(st, I(r))
    if key in ('java/lang/Integer.compare', 'java/lang/Long.compare', 'java/lang/Short.compare', 'java/lang/Byte.compare', 'java/lang/Character.compare', 'java/lang/Boolean.compare'):
        a, b = args[0].t, args[1].t
        if cname[10:] in ('Short', 'Byte', 'Character'): return ret(st, I(Op('bvsub', a.sort, a, b) if ex.mode == 'bv' else a - b))
        return ret(st, I(Ite(D.lt(a, b), D.const('I', -1), Ite(Eq(a, b), D.const('I', 0), D.const('I', 1))), 'B'))
    if key in ('java/lang/Integer.compareUnsigned', 'java/lang/Long.compareUnsigned'):
        a, b = args[0].t, args[1].t
        if ex.mode == 'bv': lt = Op('bvult', 'Bool', a, b)
        else:
            sh = 2 ** (32 if 'Integer' in key else 64)
            u = lambda x: Ite(x >= 0, x, x + sh)
            lt = u(a) < u(b)
        return ret(st, I(Ite(lt, D.const('I', -1), Ite(Eq(a, b), D.const('I', 0), D.const('I', 1))), 'B'))
    if key in ('java/lang/Float.compare', 'java/lang/Double.compare'):
        return ret(st, I(fcompare(ex, key[10], args[0].t, args[1].t)))
    if key in ('java/lang/Float.floatToRawIntBits', 'java/lang/Double.doubleToRawLongBits', 'java/lang/Float.intBitsToFloat', 'java/lang/Double.longBitsToDouble'):
        if ex.mode != 'bv': return None
        k = {'floatToRawIntBits': 'I', 'doubleToRawLongBits': 'J', 'intBitsToFloat': 'F', 'longBitsToDouble': 'D'}[name]
        return ret(st, V(k, recv.t, k))
    if key in ('java/lang/Float.floatToIntBits', 'java/lang/Double.doubleToLongBits'):
        if ex.mode != 'bv': return None
        k = recv.kind
        t = Ite(Op('fp.isNaN', 'Bool', D.fp(k, recv.t)), BVC(0x7fc00000, 32) if k == 'F' else BVC(0x7ff8 << 48, 64), recv.t)
        return ret(st, V('I' if k == 'F' else 'J', t))
    if key in ('java/lang/Float.isNaN', 'java/lang/Double.isNaN') and isinstance(recv, V):
        if ex.mode != 'bv': return None
        return ret(st, I(Ite(Op('fp.isNaN', 'Bool', D.fp(recv.kind, recv.t)), BVC(1, 32), BVC(0, 32)), 'Z'))
    if key == 'java/lang/Math.abs':
        k = recv.kind
        if k in 'FD':
            if ex.mode == 'bv': return ret(st, V(k, D.fabs(k, recv.t)))
            return ret(st, V(k, App('abs_' + k, recv.t.sort, recv.t)))
        return ret(st, V(k, Ite(D.ge0(recv.t), recv.t, D.neg(ex, st, k, recv.t)), k))
    if key in ('java/lang/Math.min', 'java/lang/Math.max') and recv.kind in 'IJ':
        a, b = args[0].t, args[1].t
        c = D.lt(b, a)
        if name == 'max': a, b = b, a
        if ex.valid(st, c): r = b
        elif ex.valid(st, Not(c)): r = a
        else: r = Ite(c, b, a)
        return ret(st, V(recv.kind, r))
    if key == 'java/lang/Math.ceil':
        if recv.t.sort != 'Real': return None
        return ret(st, V('D', App('dceil', 'Real', recv.t)))
    if key == 'java/lang/Integer.numberOfLeadingZeros':
        if ex.mode == 'bv': return ret(st, I(nlz(ex, recv.t), 'B'))
        r = App('nlz', 'Int', recv.t); st.assume(And(r >= 0, r <= 32)); return ret(st, I(r))
    if key == 'java/lang/Long.numberOfTrailingZeros':
        if ex.mode == 'bv': return ret(st, I(ntz(ex, recv.t), 'B'))
        r = App('ntz', 'Int', recv.t); st.assume(And(r >= 0, r <= 64)); return ret(st, I(r))
    if key in ('java/lang/Integer.highestOneBit',) and ex.mode == 'bv':
        r = BVC(0, 32)
        for i in range(32):
            r = Ite(Eq(Op('(_ extract %d %d)' % (i, i), ('BV', 1), recv.t), BVC(1, 1)), BVC(1 << i, 32), r)
        return ret(st, I(r))
    if key == 'java/lang/System.arraycopy':
        return arraycopy(ex, st, args)
    if key == 'java/util/Arrays.copyOf':
        return arrays_copyof(ex, st, args)
    if key == 'java/util/Arrays.copyOfRange' and isinstance(recv, Loc) and isinstance(st.heap[recv.n], Arr):
        a = st.heap[recv.n]; f, t = args[1].t, args[2].t
        outs = ex.nn(st, recv, 'copyOfRange')
        outs += ex.check(st, And(D.ge0(f), f <= a.len), 'ArrayIndexOutOfBoundsException', 'copyOfRange')
        outs += ex.check(st, f <= t, 'IllegalArgumentException', 'copyOfRange')
        nd = Fresh('copyOf', a.data.sort); d, ln = a.data, a.len
        st.assume(Forall('Int', lambda k: Eq(Sel(nd, k), Ite(And(IntC(0) <= k, k + f < ln, k < t - f), Sel(d, k + f), D.default(a.ety))), lambda k: Sel(nd, k)))
        return outs + ret(st, ex.alloc_arr(st, a.ety, t - f, nd, a.desc))
    if key == 'java/util/Arrays.fill' and isinstance(recv, Loc) and isinstance(st.heap[recv.n], Arr):
        a = st.heap[recv.n]
        outs = ex.nn(st, recv, 'fill')
        if len(args) == 2: f, t, v = D.const('I', 0), a.len, args[1]
        else:
            f, t, v = args[1].t, args[2].t, args[3]
            outs += ex.check(st, f <= t, 'IllegalArgumentException', 'fill range')
            outs += ex.check(st, And(D.ge0(f), t <= a.len), 'ArrayIndexOutOfBoundsException', 'fill range')
        if a.elems is not None: return None
        st.heap[recv.n] = Arr(a.ety, a.len, seg_fill(ex, st, a, f, t, ex.stored(st, a.ety, v)), None, a.desc)
        if ex.ctx is not None and ex.ctx.on_bulk is not None: ex.ctx.on_bulk(ex, st, recv)
        return outs + ret(st)
    if key == 'java/lang/reflect/Array.newInstance':
        outs = ex.check(st, D.ge0(args[1].t), 'NegativeArraySizeException', 'array size')
        return outs + ret(st, ex.alloc_arr(st, 'E', args[1].t, ConstArr(ex.arr_sort('E'), NULLE), '[Ljava/lang/Object;'))
    if cname == 'java/time/LocalDate' or cname == 'java/time/LocalTime':
        return time_call(ex, st, cname, name, args)
    if cname == 'java/util/Date' and name in ('getYear', 'getMonth', 'getDate'):
        r = App('Date_' + name, D.sort('I'), ex.term(recv)); st.assume(D.inrange(r, 'I')); return ret(st, I(r))
    if key == 'java/util/function/Supplier.get' and isinstance(recv, Opq):
        t = Fresh('supplied', 'E'); return ret(st, Opq(t))
    if key == 'java/util/function/LongSupplier.getAsLong' and ex.ctx is not None and ex.ctx.clock is not None:
        return ex.ctx.clock(ex, st, recv)
    if key == 'java/util/function/IntConsumer.accept' and isinstance(recv, Opq) and ex.ctx is not None:
        return ex.ctx.call_fn(ex, st, recv, name, args[1:])
    if key == 'java/lang/Throwable.addSuppressed': return ret(st)
    return None


def objeq(ex, a, b):
    x, y = ex.term(a), ex.term(b)
    if x is y: return TRUE
    eq = App('objEquals', 'Bool', x, y)
    if x is NULLE: return Eq(y, NULLE)
    if y is NULLE: return Eq(x, NULLE)
    return Or(Eq(x, y), And(Ne(x, NULLE), Ne(y, NULLE), eq))


def arraycopy(ex, st, args):
    from .symex import Arr, Mat
    D = ex.dom
    src, sp, dst, dp, n = args
    outs = ex.nn(st, src, 'arraycopy source') + ex.nn(st, dst, 'arraycopy target')
    if st.dead: return outs
    if not (isinstance(src, Loc) and isinstance(dst, Loc)): return None
    a, b = st.heap[src.n], st.heap[dst.n]
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return None
    if a.ety != b.ety: return None
    ok = And(D.ge0(sp.t), D.ge0(dp.t), D.ge0(n.t), sp.t + n.t <= a.len, dp.t + n.t <= b.len)
    outs += ex.check(st, ok, 'ArrayIndexOutOfBoundsException', 'arraycopy range')
    if a.elems is not None or b.elems is not None: return None
    st.heap[dst.n] = Arr(b.ety, b.len, seg_copy(ex, st, a, sp.t, b, dp.t, n.t), None, b.desc)
    if ex.ctx is not None and ex.ctx.on_bulk is not None: ex.ctx.on_bulk(ex, st, dst)
    return outs + ret(st)


def arrays_copyof(ex, st, args):
    from .symex import Arr, Mat
    D = ex.dom
    src, n = args[0], args[1]
    outs = ex.nn(st, src, 'copyOf')
    if st.dead: return outs
    a = st.heap[src.n]
    outs += ex.check(st, D.ge0(n.t), 'NegativeArraySizeException', 'copyOf length')
    if isinstance(a, Mat):
        if ex.mode != 'int': return None
        l = ex.newloc()
        nd = Fresh('rows', a.data.sort); nn = Fresh('nn', a.nn.sort)
        d, on, ln, m = a.data, a.nn, a.len, n.t
        # rows are shared by reference: the source may not be used afterwards (checked: 'moved')
        st.assume(Forall('Int', lambda k: And(Implies(And(IntC(0) <= k, k < ln, k < m), Eq(Sel(nd, k), Sel(d, k))),
                                             Eq(Sel(nn, k), And(IntC(0) <= k, k < ln, k < m, Sel(on, k)))), lambda k: [Sel(nd, k), Sel(nn, k)]))
        st.heap[l] = Mat(a.ety, n.t, a.rowlen, nd, nn)
        st.heap[src.n] = Mat(a.ety, a.len, a.rowlen, a.data, a.nn, True)
        return outs + ret(st, Loc(l))
    if a.elems is not None: return None
    nd = copy_of(ex, st, a, n.t)
    return outs + ret(st, ex.alloc_arr(st, a.ety, n.t, nd, a.desc))


def time_call(ex, st, cname, name, args):
    D = ex.dom
    if ex.mode != 'int' and name == 'of': return None
    s = cname.split('/')[-1]
    if name == 'of' and len(args) == 3:
        a, b, c = (x.t for x in args)
        ok = App('valid_' + s, 'Bool', a, b, c)
        t = App(s + '_of', 'E', a, b, c)
        outs = ex.check(st, ok, 'RuntimeException', s + '.of')
        g = ('getYear', 'getMonthValue', 'getDayOfMonth') if s == 'LocalDate' else ('getHour', 'getMinute', 'getSecond')
        st.assume(And(Ne(t, NULLE), Eq(kind_of(t), IntC(KINDS[cname])), *[Eq(App('%s_%s' % (s, x), 'Int', t), y) for x, y in zip(g, (a, b, c))]))
        return outs + ret(st, Opq(t))
    if name.startswith('get') and len(args) == 1:
        r = App('%s_%s' % (s, name), D.sort('I'), ex.term(args[0])); st.assume(D.inrange(r, 'I'))
        return ret(st, V('I', r))
    return None
