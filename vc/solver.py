"""Back ends: a quick ground oracle for path pruning, and the portfolio that discharges obligations."""
import os, subprocess, time, hashlib, select
from .term import *

Z3 = '/usr/bin/z3'
import shutil
Z3NEW = shutil.which('z3-new') or 'z3-new'
Z3OLD = shutil.which('z3') or 'z3'
CVC5 = shutil.which('cvc5') or 'cvc5'


class Oracle:
    """sound, incomplete answers from quantifier-free facts; resource-limited so that runs are repeatable"""
    def __init__(self, rlimit=400000):
        self.p = None; self.rl = rlimit; self.memo = {}; self.n = 0; self.t = 0.0

    def start(self):
        self.p = subprocess.Popen([Z3NEW, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def close(self):
        if self.p is not None:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None

    def sat(self, hyps):
        """'unsat' / 'sat' / 'unknown' of the ground part"""
        hs = [h for h in hyps if not has_quant(h)]
        key = frozenset(h.id for h in hs)
        r = self.memo.get(key)
        if r is not None: return r
        if self.p is None: self.start()
        t0 = time.time()
        txt = '(reset)\n(set-option :rlimit %d)\n(set-option :timeout 2000)\n' % self.rl + Printer().script(hs) + '(check-sat)\n'
        self.p.stdin.write(txt); self.p.stdin.flush()
        r = self.p.stdout.readline().strip()
        while r.startswith('(error'):
            raise RuntimeError('oracle: ' + r + '\n' + txt[-3000:])
        self.n += 1; self.t += time.time() - t0
        self.memo[key] = r
        return r

    def relevant(self, pc, t):
        """keep hypotheses connected to t through shared constants (cheap cone of influence)"""
        return pc

    def valid(self, pc, t):
        if t is TRUE: return True
        if has_quant(t): return False
        return self.sat(list(pc) + [Not(t)]) == 'unsat'

    def feasible(self, pc):
        return self.sat(pc) != 'unsat'

    def decide(self, pc, cond):
        if has_quant(cond): return None
        if self.sat(list(pc) + [Not(cond)]) == 'unsat': return True
        if self.sat(list(pc) + [cond]) == 'unsat': return False
        return None


def fv(t, cache={}):
    """ids of constants and function names in t"""
    r = cache.get(t.id)
    if r is None:
        if t.op == 'const': r = frozenset([t.id])
        else:
            r = frozenset()
            for a in t.args: r = r | fv(a)
            if t.op == 'app': r = r | {t.data}
        cache[t.id] = r
    return r


def script(hyps, goal):
    return Printer().script(list(hyps) + [Not(goal)])


def flat_hyps(hyps):
    out = []
    for h in hyps:
        if h.op == 'and': out += flat_hyps(h.args)
        else: out.append(h)
    return out


class Task:
    __slots__ = ('text', 'key', 'quant', 'bv')
    def __init__(self, hyps, goal):
        self.text = script(hyps, goal)
        self.key = hashlib.sha256(self.text.encode()).hexdigest()
        self.quant = 'forall' in self.text or 'exists' in self.text
        self.bv = 'BitVec' in self.text or 'FloatingPoint' in self.text


HEAD_NOMBQI = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n'

STAGES_Q = [          # quantified
    [('z3-new/ematch', [Z3NEW, '-in', '-smt2'], HEAD_NOMBQI, 0.3)],
    [('z3-4.8/ematch', [Z3OLD, '-in', '-smt2'], HEAD_NOMBQI, 3.0)],
    [('z3-new/ematch', [Z3NEW, '-in', '-smt2'], HEAD_NOMBQI, 3.0)],
    [('z3-new/ematch', [Z3NEW, '-in', '-smt2'], HEAD_NOMBQI, 20.0), ('z3-4.8/ematch', [Z3OLD, '-in', '-smt2'], HEAD_NOMBQI, 20.0),
     ('z3-new', [Z3NEW, '-in', '-smt2'], '', 20.0), ('cvc5', [CVC5, '--lang=smt2', '--full-saturate-quant'], '(set-logic ALL)\n', 20.0)],
]
STAGES_G = [          # ground
    [('z3-new', [Z3NEW, '-in', '-smt2'], '', 10.0)],
    [('z3-new', [Z3NEW, '-in', '-smt2'], '', 60.0), ('cvc5', [CVC5, '--lang=smt2', '--fp-exp'], '(set-logic ALL)\n', 60.0),
     ('z3-4.8', [Z3OLD, '-in', '-smt2'], '', 60.0)],
]


def run_group(group, text, scale=1.0):
    """run solvers in parallel; first unsat or sat wins. -> (status, solver, seconds)"""
    t0 = time.time(); procs = []
    for (name, cmd, head, to) in group:
        c = list(cmd)
        tmo = to * scale
        if 'cvc5' in cmd[0]: c.append('--tlimit=%d' % int(tmo * 1000))
        p = subprocess.Popen(c, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        h = head if 'cvc5' in cmd[0] else head + '(set-option :timeout %d)\n' % int(tmo * 1000)
        try:
            p.stdin.write(h + text + '(check-sat)\n'); p.stdin.close()
        except BrokenPipeError: pass
        procs.append((name, p, tmo))
    live = dict((p.stdout.fileno(), (n, p)) for n, p, _ in procs)
    res = ('unknown', procs[0][0])
    end = t0 + max(t for _, _, t in procs) + 2.0
    err = None
    while live and time.time() < end:
        rd, _, _ = select.select(list(live), [], [], max(0.0, end - time.time()))
        done = None
        for f in rd:
            n, p = live.pop(f)
            out = p.stdout.read().strip()
            first = out.split('\n')[0] if out else ''
            if first == 'unsat': done = ('unsat', n)
            elif first == 'sat' and done is None: done = ('sat', n)
            elif first.startswith('(error') and 'timeout' not in first and 'cvc5' not in n: err = (n, out[:300])
        if done: res = done; break
    for n, p, _ in procs:
        try: p.kill()
        except Exception: pass
        p.wait()
        try: p.stdout.close()
        except Exception: pass
    if err and res[0] == 'unknown':
        raise RuntimeError('solver error %s: %s' % err)
    return res[0], res[1], time.time() - t0


class Server:
    """one solver process that answers the first-stage queries one after another, each from a clean state"""
    def __init__(self): self.p = None; self.n = 0
    def ask(self, head, text, to):
        """-> (answer, seconds)"""
        t0 = time.time()
        if self.p is None or self.n >= 150:
            self.close()
            self.p = subprocess.Popen([Z3NEW, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL); self.n = 0
        self.n += 1
        try:
            self.p.stdin.write(('(reset)\n' + head + '(set-option :timeout %d)\n' % int(to * 1000) + text + '(check-sat)\n').encode()); self.p.stdin.flush()
            end = t0 + to + 2.0; buf = b''
            while not buf.endswith(b'\n'):
                if not select.select([self.p.stdout], [], [], max(0.0, end - time.time()))[0]: self.close(); return 'unknown', time.time() - t0
                x = os.read(self.p.stdout.fileno(), 65536)
                if not x: self.close(); return 'unknown', time.time() - t0
                buf += x
        except (BrokenPipeError, OSError):
            self.close(); return 'unknown', time.time() - t0
        r = buf.decode().split('\n')[0].strip()
        if r.startswith('(error'): self.close(); raise RuntimeError('solver error ' + r)
        if '\n' in buf.decode().strip(): self.close()          # more than the answer: start afresh
        return r, time.time() - t0
    def close(self):
        if self.p is not None:
            try: self.p.kill(); self.p.wait(); self.p.stdin.close(); self.p.stdout.close()
            except Exception: pass
            self.p = None


SERVER = Server()


def solve(task, level=3, scale=1.0, first=0):
    """-> (status, solver, seconds)"""
    stages = STAGES_Q if task.quant else STAGES_G
    if not task.quant: level = min(level, 2)
    tot = 0.0; n = '-'
    for g in stages[first:level]:
        if len(g) == 1 and g[0][1][0] == Z3NEW:
            r, t = SERVER.ask(g[0][2], task.text, g[0][3] * scale); n = g[0][0]
        else: r, n, t = run_group(g, task.text, scale)
        tot += t
        if r == 'unsat': return r, n, tot
        if r == 'sat' and (not task.quant or n == 'z3-new'): return r, n, tot
    return 'unknown', n, tot


def model(text, timeout=10):
    """model of a satisfiable script, as text (best effort)"""
    try:
        r = subprocess.run([Z3NEW, '-in', '-smt2', '-T:%d' % timeout], input=text + '(check-sat)\n(get-model)\n', stdout=subprocess.PIPE, text=True, timeout=timeout + 3)
        return r.stdout[:6000]
    except Exception as e:
        return str(e)
