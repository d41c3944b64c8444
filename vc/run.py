"""Run verification units: symbolic execution, then the solver portfolio, both in parallel."""
import itertools, os, sys, time, hashlib, multiprocessing as mp, traceback, json
from .term import *
from . import solver, jdk, contract
from .classfile import Classes
from .dom import Unsupported
from .contract import verify

G = {}


def split_goal(t):
    if t.op == 'and':
        r = []
        for a in t.args: r += split_goal(a)
        return r
    if t.op == '=>':
        return [Implies(t.args[0], g) for g in split_goal(t.args[1])] if t.args[1].op == 'and' else [t]
    return [t]


def ident(s): return s.ident()


def registry(specs):
    reg = {}; todo = list(specs)
    while todo:
        s = todo.pop()
        if ident(s) in reg: continue
        reg[ident(s)] = s; todo += list(s.uses)
    return reg


def do_unit(a):
    sid, prop, whole = a[:3]; choice = a[3] if len(a) > 3 else (); only = a[4] if len(a) > 4 else None
    spec = G['reg'][sid]; d = G['dir']
    t0 = time.time()
    orc = solver.Oracle(); contract.LAST_ALTS = {}
    jdk.TRUSTED_USED.clear()
    r = {'i': sid, 'unit': spec.key(), 'cls': spec.cls, 'helper': prop is None, 'obls': [], 'trivial': 0, 'error': None, 'covers': [], 'inlined': [], 'loops': [], 'uses': [], 'paths': 0, 'alts': {}, 'choice': choice, 'reduced': bool(spec.elems) and not whole}
    try:
        ex, info = verify(spec, G['classes'], orc, choice)
        r['paths'] = info['paths']
        for o in ex.obls:
            if prop is not None and prop not in o.tags: continue
            if only is not None and (o.name, o.where, o.kind) not in only: continue
            if o.goal is TRUE:
                r['trivial'] += 1; continue
            g = o.goal
            hyps = reduce_hyps(o.hyps, g, spec.elems, spec.side) if spec.elems and not whole else o.hyps
            t = solver.Task(hyps, g)
            p = os.path.join(d, t.key)
            if not os.path.exists(p):
                with open(p + '.%d' % os.getpid(), 'w') as f: f.write(t.text)
                os.rename(p + '.%d' % os.getpid(), p)
            r['obls'].append((o.name, o.where, o.kind, t.key, t.quant))
        for lab, hs in ex.covers.items():
            keys = []
            for h in hs[:6]:
                t = solver.Task(h, FALSE); p = os.path.join(d, t.key)
                if not os.path.exists(p):
                    with open(p + '.%d' % os.getpid(), 'w') as f: f.write(t.text)
                    os.rename(p + '.%d' % os.getpid(), p)
                keys.append((t.key, t.quant))
            r['covers'].append((lab, keys))
        r['inlined'] = sorted(ex.trace_inlined); r['loops'] = sorted(set(ex.loopuse))
        r['uses'] = sorted(ex.used_specs, key=str)
    except Unsupported as e:
        r['error'] = 'unsupported: %s' % e
        if G.get('debug'): r['error'] += '\n' + traceback.format_exc()
    except Exception as e:
        r['error'] = 'internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    finally:
        orc.close()
    r['alts'] = dict(contract.LAST_ALTS)
    r['trusted'] = sorted(jdk.TRUSTED_USED); r['sec'] = time.time() - t0; r['osec'] = orc.t; r['oq'] = orc.n
    return r


class FileTask:
    def __init__(self, d, key, quant):
        self.text = open(os.path.join(d, key)).read(); self.key = key; self.quant = quant


def do_solve(a):
    key, quant, level, scale, first = a
    if time.time() > G['limit'].value or first >= 3 and G["stop"].value: return key, 'unknown (not tried)', '-', 0.0
    try:
        s, n, t = solver.solve(FileTask(G['dir'], key, quant), level, scale, first)
    except Exception as e:
        s, n, t = 'error: %s' % e, '-', 0.0
    return key, s, n, t


def do_cover(a):
    """a cover is vacuous when its hypotheses are refuted"""
    lab, unit, keys = a
    for key, quant in keys:
        t = FileTask(G['dir'], key, quant)
        st, sec = solver.SERVER.ask(solver.HEAD_NOMBQI if quant else '', t.text, G.get('cover_time', 0.12))
        if st != 'unsat': return lab, unit, True
    return lab, unit, False


def run(specs, classes_dir, prop, scratch, workers=8, level=3, scale=1.0, covers=True, progress=None, debug=False, closure=True, budget=480, decided=lambda: False):
    """-> dict with units, solved {key: (status, solver, sec)}, vacuous"""
    d = os.path.join(scratch, 'obl'); os.makedirs(d, exist_ok=True)
    G.update(specs=specs, classes=Classes(classes_dir), prop=prop, dir=d, debug=debug, deadline=time.time() + budget)
    ctx = mp.get_context('fork'); G['stop'] = ctx.Value('i', 0); G['limit'] = ctx.Value('d', G['deadline'])
    def known():
        """a failing input is known: what remains is to name the obligation that fails, within a shorter time"""
        if not decided(): return False
        G['limit'].value = min(G['limit'].value, time.time() + 100) if not G.get('known') else G['limit'].value
        G['known'] = True
        return True
    G['known'] = False
    t0 = time.time()
    G['reg'] = reg = registry(specs)
    with ctx.Pool(workers) as pool:
        units = []; seen = set(); ids = []
        for x in specs:
            if ident(x) not in seen: seen.add(ident(x)); ids.append((ident(x), prop, False))
        order = {ident(x): n for n, x in enumerate(specs)}
        while ids:
            # contracts used by the units are verified too, with all their obligations
            ids.sort(key=lambda a: -getattr(reg[a[0]], 'weight', 1))
            nxt = []
            for r in pool.imap_unordered(do_unit, ids, 1):
                units.append(r)
                if closure:
                    for u in r['uses']:
                        if u not in seen: seen.add(u); nxt.append((u, None, False))
                if progress: progress('unit', r)
            ids = nxt
        t1 = time.time()
        keys = {}
        for r in units:
            for (n, w, k, key, q) in r['obls']: keys[key] = q
        solved = {}
        lost = [0]
        def stage(ks, first, level): stage_on(pool, ks, first, level)
        def stage_on(pool, ks, first, level):
            if lost[0] >= 6: return         # enough obligations have failed everything tried: the verdict stands
            for key, s, n, t in pool.imap_unordered(do_solve, [(k, keys[k], level, scale, first) for k in sorted(ks)], 2 if len(ks) > 64 else 1):
                o = solved.get(key); solved[key] = (s, n, t + (o[2] if o else 0.0))
                if level >= 4 and s != 'unsat':
                    lost[0] += 1
                    if lost[0] == 6: G['stop'].value = 1
        def open_(ks=None): return [k for k in (solved if ks is None else ks) if solved[k][0] != 'unsat' and not (solved[k][0] == 'sat' and not keys[k])]
        def prune():
            used = {o[3] for r in units for o in r['obls']}
            for k in list(solved):
                if k not in used: del solved[k]
            for k in list(keys):
                if k not in used: del keys[k]
        def note(w):
            if debug: print('%s: %d queries, %d open, %.1f s cpu, at %.1f s' % (w, len(solved), len(open_()), sum(v[2] for v in solved.values()), time.time() - t0))
        note('symbolic execution'); stage(list(keys), 0, 1); note('stage 1')
        known()
        if level > 1: stage([k for k in open_() if keys[k]], 1, 3); note('stage 2')
        few = [k for k in open_() if keys[k]]
        if 0 < len(few) <= 4 and level > 1 and not known(): stage(few, 3, 4); lost[0] = 0; note('few left')
        # where the reduced script is not enough, the unit is decided on the whole ones
        op = set(open_())
        redo = [r for r in units if r['reduced'] and any(o[3] in op for o in r['obls'])]
        if debug and redo:
            for r in redo:
                for o in r['obls']:
                    if o[3] in op: print('reduced script not enough:', r['unit'], o)
        known()
        for r in redo: r['rough'] = True
        if redo and level > 1 and time.time() < G['limit'].value - 60:
            bad = {r['i']: frozenset(tuple(o[:3]) for o in r['obls'] if o[3] in op) for r in redo}
            nk = {}
            for r in list(pool.imap_unordered(do_unit, [(r['i'], None if r['helper'] else prop, True, r['choice'], bad[r['i']]) for r in redo], 1)):
                o = [x for x in units if x['i'] == r['i']][0]
                o['obls'] = [x for x in o['obls'] if tuple(x[:3]) not in bad[r['i']]] + r['obls']
                o['rough'] = False
                for (n, w, k, key, q) in r['obls']:
                    if key not in keys: keys[key] = q; nk[key] = q
            prune()
            stage(list(nk), 0, 1)
            if level > 1: stage([k for k in open_(list(nk)) if keys[k]], 1, 3)
            note('whole scripts')
        vac = []
        if covers:
            cv = [(lab, r['unit'], ks) for r in units for lab, ks in r['covers']]
            for lab, unit, ok in pool.imap_unordered(do_cover, cv, 2):
                if not ok: vac.append((unit, lab))
    def last(w):
        left = open_()
        if left and level > 1 and not decided():
            with ctx.Pool(max(2, workers // 3)) as pool: stage_on(pool, [k for k in left if keys[k]], 3, level + 1); stage_on(pool, [k for k in left if not keys[k]], 1, level)
            note(w)
    last('last stage')
    # a loop that has changed its shape may keep another of the known invariants, or one that can be inferred
    def failures(r): return len([1 for o in r['obls'] if solved[o[3]][0] != 'unsat']) + (1000 if r['error'] else 0)
    def attempt(rs, choice):
        new = list(pool.imap_unordered(do_unit, [(r['i'], None if r['helper'] else prop, False, choice) for r in rs], 1))
        nk = {}
        for r in new:
            for (n, w, k, key, q) in r['obls']:
                if key not in keys: keys[key] = q; nk[key] = q
        stage(list(nk), 0, 1); stage([k for k in open_(list(nk)) if keys[k]], 1, 3)
        few = [k for k in open_(list(nk)) if keys[k]]
        if len(few) <= 2: stage(few, 3, 4); lost[0] = 0
        return new
    if level > 1 and not decided() and any(failures(r) for r in units):
        lost[0] = 0; G['stop'].value = 0
        pool = ctx.Pool(workers)
        groups = {}
        for r in units:
            if failures(r): groups.setdefault(reg[r['i']].name + str(getattr(reg[r['i']], 'variant_of', '')), []).append(r)
        t_search = time.time() + min(90, budget / 4)
        for name, rs in sorted(groups.items(), key=lambda p: len(p[1])):
            best, choice, alts = failures(rs[0]), {}, rs[0]['alts']
            tried = 0
            for key in sorted(alts):
                for n in range(alts[key] + 1):
                    if best == 0 or n == choice.get(key, 0) or time.time() > t_search or decided() or tried > 12: continue
                    tried += 1; c = dict(choice); c[key] = n
                    r = attempt(rs[:1], tuple(sorted(c.items())))[0]
                    if debug: print('other invariants for', name, c, failures(r), 'failures instead of', best, r['error'] or '')
                    if failures(r) < best: best, choice = failures(r), c
            tried = 0
            for a, b in itertools.combinations(sorted(alts), 2):        # two loops at a time
                for n, k in itertools.product(range(alts[a] + 1), range(alts[b] + 1)):
                    if best == 0 or n == choice.get(a, 0) or k == choice.get(b, 0) or time.time() > t_search or decided() or tried > 12: continue
                    tried += 1; c = dict(choice); c[a] = n; c[b] = k
                    r = attempt(rs[:1], tuple(sorted(c.items())))[0]
                    if debug: print('other invariants for', name, c, failures(r), 'failures instead of', best, r['error'] or '')
                    if failures(r) < best: best, choice = failures(r), c
            if best == 0 and choice:
                for r in attempt(rs, tuple(sorted(choice.items()))):
                    o = [x for x in rs if x['i'] == r['i']][0]
                    if failures(r) < failures(o) and set(r['uses']) <= seen: units[units.index(o)] = r
        pool.terminate(); prune()
        note('other invariants')
    units.sort(key=lambda r: (order.get(r['i'], 1 << 30), str(r['i'])))
    return {'units': units, 'solved': solved, 'vacuous': vac, 't_symex': t1 - t0, 't_total': time.time() - t0}


def summary(res, verbose=True):
    n = triv = bad = 0; out = []
    for r in res['units']:
        if r['error']: out.append('%s: %s' % (r['unit'], r['error'])); continue
        triv += r['trivial']
        for (name, where, kind, key, q) in r['obls']:
            n += 1
            st = res['solved'][key]
            if st[0] != 'unsat': bad += 1; out.append('FAILED %s | %s | %s | %s %s %.1fs %s' % (r['unit'], where, name, st[0], st[1], st[2], key[:10]))
    for u, lab in res['vacuous']: out.append('VACUOUS %s | %s' % (u, lab))
    out.append('%d obligations (+%d by simplification), %d failed; %d distinct queries; symex %.1fs total %.1fs' % (n, triv, bad, len(res['solved']), res['t_symex'], res['t_total']))
    return '\n'.join(out)
