"""Java class-file parser: constant pool, fields, methods, code, local variable tables, bootstrap methods."""
import struct, functools, os

OPS = {}
def _ops():
    names = """nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0
fconst_1 fconst_2 dconst_0 dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload iload_0 iload_1 iload_2
iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3 aload_0 aload_1
aload_2 aload_3 iaload laload faload daload aaload baload caload saload istore lstore fstore dstore astore istore_0
istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1
dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore
pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv
ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc
i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle
if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch
ireturn lreturn freturn dreturn areturn return getstatic putstatic getfield putfield invokevirtual invokespecial
invokestatic invokeinterface invokedynamic new newarray anewarray arraylength athrow checkcast instanceof monitorenter
monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w""".split()
    for i, n in enumerate(names): OPS[i] = n
_ops()

ACC_STATIC = 8; ACC_SYNC = 0x20; ACC_ABSTRACT = 0x400; ACC_NATIVE = 0x100; ACC_FINAL = 0x10; ACC_VOLATILE = 0x40


class Insn:
    __slots__ = ('pc', 'op', 'a', 'next')
    def __init__(self, pc, op, a, nxt): self.pc = pc; self.op = op; self.a = a; self.next = nxt
    def __repr__(self): return '%d: %s %s' % (self.pc, self.op, self.a)


class Method:
    def __init__(self): self.code = None; self.lvt = []; self.lines = []; self.handlers = []
    @property
    def static(self): return bool(self.acc & ACC_STATIC)
    @property
    def key(self): return self.name + self.desc
    def __repr__(self): return '%s.%s%s' % (self.cls.name, self.name, self.desc)
    def local_name(self, pc, slot):
        for (s, l, n, d, i) in self.lvt:
            if i == slot and s <= pc < s + l: return n
        return None
    def line(self, pc):
        r = 0
        for (s, ln) in self.lines:
            if s <= pc: r = ln
        return r


class Field: pass


def parse_desc(d):
    """method descriptor -> ([param types], ret)"""
    i = 1; ps = []
    while d[i] != ')':
        j = i
        while d[j] == '[': j += 1
        if d[j] == 'L': j = d.index(';', j)
        ps.append(d[i:j + 1]); i = j + 1
    return ps, d[i + 1:]


class ClassFile:
    def __init__(self, data):
        self.d = data; self.p = 8
        n = self.u2(); cp = [None] * n; i = 1
        while i < n:
            t = self.u1()
            if t == 1:
                l = self.u2(); raw = self.d[self.p:self.p + l]; self.p += l
                try: cp[i] = raw.decode('utf-8')
                except UnicodeDecodeError: cp[i] = raw.decode('latin1')
            elif t == 3: cp[i] = ('int', struct.unpack('>i', self.take(4))[0])
            elif t == 4: cp[i] = ('float', struct.unpack('>I', self.take(4))[0])
            elif t == 5: cp[i] = ('long', struct.unpack('>q', self.take(8))[0]); i += 1
            elif t == 6: cp[i] = ('double', struct.unpack('>Q', self.take(8))[0]); i += 1
            elif t in (7, 8, 16, 19, 20): cp[i] = ({7: 'class', 8: 'str', 16: 'mt', 19: 'mod', 20: 'pkg'}[t], self.u2())
            elif t in (9, 10, 11): cp[i] = ('ref', self.u2(), self.u2())
            elif t == 12: cp[i] = ('nt', self.u2(), self.u2())
            elif t == 15: cp[i] = ('mh', self.u1(), self.u2())
            elif t in (17, 18): cp[i] = ('dyn', self.u2(), self.u2())
            else: raise ValueError('cp tag %d' % t)
            i += 1
        self.cp = cp
        self.acc = self.u2()
        self.name = self.cls(self.u2())
        s = self.u2(); self.super = self.cls(s) if s else None
        self.interfaces = [self.cls(self.u2()) for _ in range(self.u2())]
        self.fields = []
        for _ in range(self.u2()):
            f = Field(); f.acc = self.u2(); f.name = cp[self.u2()]; f.desc = cp[self.u2()]; f.const = None
            f.static = bool(f.acc & ACC_STATIC)
            for nm, dat in self.attrs():
                if nm == 'ConstantValue': f.const = cp[struct.unpack('>H', dat)[0]]
            self.fields.append(f)
        self.methods = []
        for _ in range(self.u2()):
            m = Method(); m.cls = self; m.acc = self.u2(); m.name = cp[self.u2()]; m.desc = cp[self.u2()]
            m.params, m.ret = parse_desc(m.desc)
            for nm, dat in self.attrs():
                if nm == 'Code': self.code(m, dat)
            self.methods.append(m)
        self.boot = []
        for nm, dat in self.attrs():
            if nm == 'BootstrapMethods':
                k = struct.unpack('>H', dat[:2])[0]; q = 2
                for _ in range(k):
                    ref, na = struct.unpack('>HH', dat[q:q + 4]); q += 4
                    args = struct.unpack('>%dH' % na, dat[q:q + 2 * na]); q += 2 * na
                    self.boot.append((ref, args))
        self.mmap = {m.key: m for m in self.methods}
        self.fmap = {f.name: f for f in self.fields}

    def take(self, n): r = self.d[self.p:self.p + n]; self.p += n; return r
    def u1(self): return self.take(1)[0]
    def u2(self): return struct.unpack('>H', self.take(2))[0]
    def u4(self): return struct.unpack('>I', self.take(4))[0]
    def cls(self, i): return self.cp[self.cp[i][1]]
    def attrs(self):
        return [(self.cp[self.u2()], self.take(self.u4())) for _ in range(self.u2())]

    def ref(self, i):
        _, c, nt = self.cp[i]; _, n, d = self.cp[nt]
        return (self.cls(c), self.cp[n], self.cp[d])

    def ldc(self, i):
        c = self.cp[i]
        if c[0] in ('int', 'float', 'long', 'double'): return c
        if c[0] == 'str': return ('str', self.cp[c[1]])
        if c[0] == 'class': return ('class', self.cp[c[1]])
        return ('other', c)

    def code(self, m, dat):
        m.max_stack, m.max_locals, n = struct.unpack('>HHI', dat[:8])
        code = dat[8:8 + n]; q = 8 + n
        k = struct.unpack('>H', dat[q:q + 2])[0]; q += 2
        for _ in range(k):
            s, e, h, t = struct.unpack('>HHHH', dat[q:q + 8]); q += 8
            m.handlers.append((s, e, h, self.cls(t) if t else None))
        save = (self.d, self.p)
        self.d, self.p = dat, q
        for nm, ad in self.attrs():
            if nm == 'LocalVariableTable':
                c = struct.unpack('>H', ad[:2])[0]
                for j in range(c):
                    s, l, nn, dd, ix = struct.unpack('>HHHHH', ad[2 + 10 * j:12 + 10 * j])
                    m.lvt.append((s, l, self.cp[nn], self.cp[dd], ix))
            elif nm == 'LineNumberTable':
                c = struct.unpack('>H', ad[:2])[0]
                for j in range(c):
                    m.lines.append(struct.unpack('>HH', ad[2 + 4 * j:6 + 4 * j]))
        self.d, self.p = save
        m.code = self.decode(code)
        m.order = sorted(m.code)

    def decode(self, code):
        out = {}; pc = 0; n = len(code)
        u1 = lambda o: code[o]
        s1 = lambda o: struct.unpack('>b', code[o:o + 1])[0]
        u2 = lambda o: struct.unpack('>H', code[o:o + 2])[0]
        s2 = lambda o: struct.unpack('>h', code[o:o + 2])[0]
        s4 = lambda o: struct.unpack('>i', code[o:o + 4])[0]
        while pc < n:
            op = OPS[code[pc]]; a = None; nx = pc + 1; o = op
            base = op.split('_')[0]
            if op[1:] in ('load_0', 'load_1', 'load_2', 'load_3', 'store_0', 'store_1', 'store_2', 'store_3'):
                o, a = op[:-2], int(op[-1])
            elif op in ('iload', 'lload', 'fload', 'dload', 'aload', 'istore', 'lstore', 'fstore', 'dstore', 'astore', 'ret'):
                a = u1(pc + 1); nx = pc + 2
            elif op == 'bipush': o, a, nx = 'iconst', s1(pc + 1), pc + 2
            elif op == 'sipush': o, a, nx = 'iconst', s2(pc + 1), pc + 3
            elif base in ('iconst', 'lconst', 'fconst', 'dconst'):
                o = base; v = op.split('_')[1]; a = -1 if v == 'm1' else int(v)
            elif op == 'ldc': a = self.ldc(u1(pc + 1)); nx = pc + 2
            elif op in ('ldc_w', 'ldc2_w'): o, a, nx = 'ldc', self.ldc(u2(pc + 1)), pc + 3
            elif op == 'iinc': a = (u1(pc + 1), s1(pc + 2)); nx = pc + 3
            elif op.startswith('if') or op in ('goto', 'jsr'): a = pc + s2(pc + 1); nx = pc + 3
            elif op in ('goto_w',): o, a, nx = 'goto', pc + s4(pc + 1), pc + 5
            elif op in ('getstatic', 'putstatic', 'getfield', 'putfield', 'invokevirtual', 'invokespecial', 'invokestatic'):
                a = self.ref(u2(pc + 1)); nx = pc + 3
            elif op == 'invokeinterface': a = self.ref(u2(pc + 1)); nx = pc + 5
            elif op == 'invokedynamic':
                _, b, nt = self.cp[u2(pc + 1)]; _, nn, dd = self.cp[nt]
                a = (b, self.cp[nn], self.cp[dd]); nx = pc + 5
            elif op in ('new', 'anewarray', 'checkcast', 'instanceof'): a = self.cls(u2(pc + 1)); nx = pc + 3
            elif op == 'newarray': a = u1(pc + 1); nx = pc + 2
            elif op == 'multianewarray': a = (self.cls(u2(pc + 1)), u1(pc + 3)); nx = pc + 4
            elif op == 'tableswitch':
                q = (pc + 4) & ~3; df = pc + s4(q); lo = s4(q + 4); hi = s4(q + 8)
                a = (df, [(lo + j, pc + s4(q + 12 + 4 * j)) for j in range(hi - lo + 1)])
                o = 'switch'; nx = q + 12 + 4 * (hi - lo + 1)
            elif op == 'lookupswitch':
                q = (pc + 4) & ~3; df = pc + s4(q); k = s4(q + 4)
                a = (df, [(s4(q + 8 + 8 * j), pc + s4(q + 12 + 8 * j)) for j in range(k)])
                o = 'switch'; nx = q + 8 + 8 * k
            elif op == 'wide':
                o2 = OPS[code[pc + 1]]
                if o2 == 'iinc': o, a, nx = 'iinc', (u2(pc + 2), s2(pc + 4)), pc + 6
                else: o, a, nx = o2, u2(pc + 2), pc + 4
            out[pc] = Insn(pc, o, a, nx)
            pc = nx
        return out


class Classes:
    """lazy class path over a directory"""
    def __init__(self, root): self.root = root; self.cache = {}
    def get(self, name):
        c = self.cache.get(name, 0)
        if c == 0:
            p = os.path.join(self.root, name + '.class')
            c = ClassFile(open(p, 'rb').read()) if os.path.exists(p) else None
            self.cache[name] = c
        return c
    def find_method(self, cname, name, desc):
        n = cname
        while n:
            c = self.get(n)
            if c is None: break
            m = c.mmap.get(name + desc)
            if m is not None: return m
            n = c.super
        # default methods of interfaces
        n = cname
        while n:
            c = self.get(n)
            if c is None: break
            for i in c.interfaces:
                m = self.find_method(i, name, desc)
                if m is not None: return m
            n = c.super
        return None
    def jdk_method(self, cname, name, desc):
        """a method of the JDK whose bytecode is at hand (beside the class path)"""
        key = ('jdk', cname); c = self.cache.get(key, 0)
        if c == 0:
            p = os.path.join(os.path.dirname(os.path.abspath(self.root)), 'jdk', cname + '.class')
            c = self.cache[key] = ClassFile(open(p, 'rb').read()) if os.path.exists(p) else None
        m = c.mmap.get(name + desc) if c is not None else None
        return m if m is not None and m.code is not None else None
    def supers(self, cname):
        out = []; todo = [cname]
        while todo:
            n = todo.pop(0)
            if n in out: continue
            out.append(n); c = self.get(n)
            if c is None: continue
            if c.super: todo.append(c.super)
            todo += c.interfaces
        return out
    def all_fields(self, cname):
        out = []; n = cname
        while n:
            c = self.get(n)
            if c is None: break
            out = [f for f in c.fields if not f.static] + out
            n = c.super
        return out


def loops(m):
    """natural loop headers of a method: {header pc: (set of pcs, [back-edge source pcs])}"""
    if getattr(m, '_loops', None) is not None: return m._loops
    succ = {}
    for pc, i in m.code.items():
        s = []
        if i.op.startswith('if'): s = [i.a, i.next]
        elif i.op == 'goto': s = [i.a]
        elif i.op == 'switch': s = [i.a[0]] + [t for _, t in i.a[1]]
        elif i.op in ('ireturn', 'lreturn', 'freturn', 'dreturn', 'areturn', 'return', 'athrow'): s = []
        else: s = [i.next]
        succ[pc] = s
    for (s, e, h, t) in m.handlers:
        for pc in m.code:
            if s <= pc < e: succ[pc] = succ[pc] + [h]
    # iterative DFS for back edges (reducible code from javac)
    seen = set(); onst = set(); back = []
    st = [(0, iter(succ[0]))]; seen.add(0); onst.add(0)
    while st:
        pc, it = st[-1]
        for t in it:
            if t in onst: back.append((pc, t))
            elif t not in seen:
                seen.add(t); onst.add(t); st.append((t, iter(succ[t]))); break
        else:
            st.pop(); onst.discard(pc)
    pred = {}
    for pc in seen:
        for t in succ[pc]: pred.setdefault(t, []).append(pc)
    out = {}
    for (src, hdr) in back:
        body, bs = out.setdefault(hdr, ({hdr}, []))
        bs.append(src)
        todo = [src]
        while todo:
            x = todo.pop()
            if x in body: continue
            body.add(x); todo += pred.get(x, [])
    m._loops = out; m._succ = succ; m._reach = seen
    return out
