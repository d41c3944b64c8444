"""One property: verify its contracts against /repo's current classes, search for a failing input, write evidence.

python3 -m vc.check PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import os, sys, threading, time, json, shutil, tempfile, subprocess, hashlib
from . import build, run, solver, props, jdk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')

BASE = ['z3 4.8.12, the newer z3 and cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)',
        'the verification-condition generator /verif/vc (bytecode semantics, loop and call rules)',
        'javac 17 and the JVM: obligations are generated from the class files compiled from /repo on this run',
        'the template renderer /verif/vc/gen/Generate.java (same templates and models as the repository build)']


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: '):])
    return out


class Harness:
    """the counterexample search over the real classes"""
    def __init__(self, classes, scratch):
        self.out = os.path.join(scratch, 'harness'); os.makedirs(self.out, exist_ok=True)
        self.cp = self.out + ':' + classes
        hd = os.path.join(VERIF, 'harness')
        src = [os.path.join(hd, f) for f in sorted(os.listdir(hd)) if f.endswith('.java')]
        r = subprocess.run([build.JAVA_HOME + '/bin/javac', '-J-XX:TieredStopAtLevel=1', '-nowarn', '-d', self.out] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise RuntimeError('harness does not compile:\n' + r.stdout[-3000:])

    def start(self, prop, seed, seconds, threads):
        return subprocess.Popen([build.JAVA_HOME + '/bin/java', '-Xmx3g', '-XX:+UseSerialGC', '-cp', self.cp, 'Main', prop, str(seed), str(seconds), str(threads)],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

    @staticmethod
    def finish(p, limit):
        try: out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate()
            return {'fail': None, 'runs': 0, 'note': 'the search ran out of time', 'log': out[-2000:]}
        r = {'fail': None, 'runs': 0, 'steps': 0, 'note': '', 'log': out[-3000:]}
        fl = []; inf = False
        for l in out.split('\n'):
            if l.startswith('FAIL-BEGIN'): inf = True; continue
            if l.startswith('FAIL-END'): inf = False; continue
            if inf: fl.append(l)
            elif l.startswith('RUNS '):
                w = l.split(); r['runs'] = int(w[1]); r['steps'] = int(w[2])
        if fl: r['fail'] = '\n'.join(fl)
        if p.returncode not in (0, 3): r['note'] = 'search ended with status %s' % p.returncode
        return r


def main(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        return check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, t0, scratch):
    classes = build.build(scratch)
    tb = time.time() - t0
    hs = Harness(classes, scratch)
    quick = tier == 'quick'
    hsec = 6 if quick else 120
    hp = hs.start(prop, seed, hsec, 2)
    box = {}
    def wait(): box['r'] = Harness.finish(hp, hsec + 60)
    th = threading.Thread(target=wait, daemon=True); th.start()
    def decided(): return bool(box.get('r') and box['r']['fail'])
    sp = props.specs(prop, tier)
    res = run.run(sp, classes, prop, scratch, workers=8, level=3, scale=1.0 if quick else 3.0, budget=400 if quick else 7200, decided=decided)
    th.join(); h = box['r']
    # --- account
    obl = triv = disch = 0; failed = []; errors = []; by = {}; funcs = []; inl = set(); trusted = set(); loops = 0; helpers = []
    for r in res['units']:
        if r['error']: errors.append((r['unit'], r['error'])); continue
        (helpers if r['helper'] else funcs).append('%s (%d obligations)' % (r['i'][0] + '.' + r['i'][1], len(r['obls']) + r['trivial']))
        inl.update(r['inlined']); trusted.update(r['trusted']); loops += len(r['loops'])
        triv += r['trivial']; obl += r['trivial'] + len(r['obls'])
        for (name, where, kind, key, q) in r['obls']:
            st = res['solved'][key]
            if st[0] == 'unsat': disch += 1; by[st[1]] = by.get(st[1], 0) + 1
            else: failed.append((r['unit'], where, name, kind, ('unknown (not tried on the whole script)', st[1], st[2]) if r.get('rough') and st[0] != 'sat' else st, key))
    sec = sum(v[2] for v in res['solved'].values())
    vac = res['vacuous']
    bad = bool(failed or errors or vac or obl == 0)
    if bad and h['fail'] is None:
        h2 = Harness.finish(hs.start(prop, seed + 1000, 60 if quick else 240, 8), 330)
        h2['runs'] += h['runs']; h2['steps'] = h2.get('steps', 0) + h.get('steps', 0); h = h2
    # refuted ones first, then unmet postconditions, one of each name before the repetitions for other types
    met = {}
    def rank(f):
        k = (f[0].split('.', 1)[-1], f[2]); met[k] = met.get(k, 0) + 1
        return (met[k] > 1, f[4][0] != 'sat', 'not tried' in f[4][0], f[3] != 'post', -f[4][2])
    failed.sort(key=rank)
    stopped = bool(h['fail']) and any('not tried' in f[4][0] for f in failed)
    viol = None
    if h['fail'] or bad:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        body = []
        if h['fail']:
            body.append('FAILING INPUT against the real classes (search of /verif/harness, seed %d):\n%s\n' % (seed, h['fail']))
        for (u, w, n, k, st, key) in failed[:20]:
            body.append('%s OBLIGATION %s | %s | %s | kind %s | %s answered %s after %.1fs' % ('OPEN' if 'not tried' in st[0] else 'FAILED', u, w, n, k, st[1], st[0], st[2]))
        for u, e in errors: body.append('NOT VERIFIED %s: %s' % (u, e))
        for u, l in vac: body.append('VACUOUS %s: the hypotheses at "%s" are contradictory' % (u, l))
        if obl == 0: body.append('NO OBLIGATION was generated')
        for (u, w, n, k, st, key) in failed[:3]:
            text = open(os.path.join(scratch, 'obl', key)).read()
            if st[0] == 'sat': body.append('\nMODEL for %s: %s\n%s' % (u, n, solver.model(text)))
            body.append('\nQUERY (unsat expected) for %s: %s\n%s(check-sat)' % (u, n, text[:60000]))
        txt = 'property %s, tier %s\n' % (prop, tier) + '\n'.join(body) + '\n'
        path = os.path.join(rd, '%s-%s.txt' % (prop, hashlib.sha256(txt.encode()).hexdigest()[:12]))
        open(path, 'w').write(txt)
        viol = (path, bool(h['fail']))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': obl, 'discharged': disch + triv, 'checker_cmd': 'cd /verif && VERIF_TIER=%s python3 -m vc.check %s' % (tier, prop),
                       'trusted_base': BASE + ['assumed contract of the JDK: ' + t for t in sorted(trusted)],
                       'discharged_by': dict(by, **{'term simplifier of the generator': triv}), 'distinct_queries': len(res['solved']),
                       'solver_seconds': round(sec, 1), 'symbolic_execution_seconds': round(res['t_symex'], 1), 'build_seconds': round(tb, 1),
                       'functions_under_contract': sorted(funcs), 'helper_contracts_verified': sorted(helpers), 'inlined_functions': sorted(inl),
                       'loop_invariants_applied': loops, 'vacuity_covers': sum(len(r['covers']) for r in res['units']),
                       'failed_obligations': ['%s | %s | %s' % f[:3] for f in failed[:50]], 'unverified_units': ['%s: %s' % e for e in errors],
                       'bounded_search': {'what': 'random and small exhaustive histories on the real classes against reference models; never counted as proof',
                                          'histories': h['runs'], 'steps': h.get('steps', 0), 'note': h['note']}},
          'assumptions': assumptions(prop), 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known(prop): print('KNOWN-FINDING: ' + k)
    print('%s: %d obligations, %d discharged (%d functions, %d helper contracts), solver %.1fs, wall %.1fs; search: %d histories' %
          (prop, obl, disch + triv, len(funcs), len(helpers), sec, wall, h['runs']))
    if viol:
        for (u, w, n, k, st, key) in failed[:8]: print('  %s obligation: %s | %s | %s (%s)' % ('open' if 'not tried' in st[0] else 'failed', u, w, n, st[0]))
        for u, e in errors[:5]: print('  not verified: %s: %s' % (u, e.split('\n')[0]))
        for u, l in vac[:5]: print('  vacuous: %s: %s' % (u, l))
        if stopped: print('  (%d obligations were open when the failing input was found and the solvers were stopped)' % sum('not tried' in f[4][0] for f in failed))
        if h['fail']: print('  failing input: ' + h['fail'].split('\n')[0])
        print('VIOLATION property=%s replay=%s%s' % (prop, viol[0], '' if viol[1] else ' no-failing-input-found'))
        return 1
    return 0


def assumptions(prop):
    return list(props.ASSUME_ALL) + list(props.ASSUME.get(prop, []))


if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], tier))
