"""check.sh entry: decide one property on the current /repo tree.

usage: run.py PROPERTY FACTS.json TIER SEED OUTDIR"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import plan as PL
import engine as EN
import verify as VF

G = {}


class ItemTimeout(EN.Budget):
    pass


def _alarm(sig, frm):
    raise ItemTimeout('time limit')


def work(i):
    it = G['items'][i]
    prog, seed = G['prog'], G['seed']
    res = {'i': i, 'label': it.label(), 'fn': it.fn, 'obl': 0, 'ok': 0, 'und': [], 'find': [], 'cells': 0, 'steps': 0, 'inl': [], 'sum': [], 'wall': 0}
    t0 = time.time()
    rep = VF.Report(it.fn)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, it.limit)
    try:
        it.run(prog, seed, rep)
    except ItemTimeout:
        rep.obligations += 1
        rep.undecided.append('%s: time limit %ss' % (it.label(), it.limit))
    except EN.Budget as b:
        rep.obligations += 1
        rep.undecided.append('%s: budget %s' % (it.label(), b))
    except RecursionError:
        rep.obligations += 1
        rep.undecided.append('%s: recursion' % it.label())
    except Exception as ex:
        # an analysis failure decides nothing: it is recorded, never an alarm
        rep.obligations += 1
        rep.undecided.append('%s: analysis failed (%s: %s)' % (it.label(), type(ex).__name__, ex))
        if os.environ.get('VERIF_TRACE'):
            import traceback
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(obl=rep.obligations, ok=rep.discharged, cells=rep.cells, steps=rep.steps,
               und=[str(u)[:400] for u in rep.undecided], inl=sorted(rep.inlined), sum=sorted(rep.summaries), wall=time.time() - t0)
    for f in rep.findings:
        res['find'].append({'key': f.key, 'fn': f.fn, 'aspect': f.aspect, 'what': f.what, 'where': f.where, 'cell': it.label(), 'witness': {str(k): str(v) for k, v in (f.witness or {}).items()} if isinstance(f.witness, dict) else str(f.witness)})
    return res


def known(prop):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.txt')
    out = {}
    try:
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                key, _, what = ln[len('known: property=%s ' % prop):].partition(' :: ')
                out[key.strip()] = what.strip()
    except OSError:
        pass
    return out


def main():
    prop, facts, tier, seed, outdir = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    evd = os.path.join(outdir, 'evidence')
    os.makedirs(evd, exist_ok=True)
    spec = PL.PROPS[prop]
    violations = []
    prog = None
    if facts == 'NOBUILD':
        # the tree does not compile: nothing to decide, but never a pass
        print('the repository does not build; see the log above')
        violations.append({'key': 'build', 'fn': '-', 'aspect': 'build', 'what': '/repo does not type-check', 'where': '/repo', 'cell': '-', 'witness': '-'})
        items, results = [], []
    else:
        prog = EN.Program(facts)
        items = spec.items(prog, tier)
        G.update(items=items, prog=prog, seed=seed)
        order = sorted(range(len(items)), key=lambda i: -items[i].weight)
        results = []
        if items:
            with mp.get_context('fork').Pool(min(8, len(items)), maxtasksperchild=40) as pool:
                for r in pool.imap_unordered(work, order, chunksize=1):
                    if os.environ.get("VERIF_TIMES") and r["wall"] > 3:
                        print("%6.1f %s" % (r["wall"], r["label"]))
                    results.append(r)
                    if os.environ.get('VERIF_VERBOSE'):
                        print('%6.1fs %s obl=%d ok=%d und=%d find=%d' % (r['wall'], r['label'], r['obl'], r['ok'], len(r['und']), len(r['find'])), flush=True)
                        for u in r['und'][:2]:
                            print('      U', u[:300])
                        for u in r['find'][:2]:
                            print('      F', u)
        results.sort(key=lambda r: r['i'])
    kn = known(prop)
    seen = {}
    for r in results:
        for f in r['find']:
            if f['key'] in kn:
                seen.setdefault(f['key'], f)
                continue
            violations.append(f)
    # anchors: every public function this property quantifies over must be there
    missing = []
    if prog is not None:
        for n in spec.anchors():
            if n not in prog.names:
                missing.append(n)
                violations.append({'key': n + '|missing', 'fn': n, 'aspect': 'anchor', 'what': 'public function %s is gone' % n, 'where': n, 'cell': '-', 'witness': '-'})
    for k in kn:
        if k in seen:
            print('KNOWN-FINDING: property=%s %s :: %s' % (prop, k, kn[k]))
    obl = sum(r['obl'] for r in results)
    ok = sum(r['ok'] for r in results)
    und = [u for r in results for u in r['und']]
    fns = sorted(set(i.fn for i in items))
    if prog is not None:
        have = set(fns)
        for n in spec.anchors():
            if n not in have and n not in missing:
                missing.append(n)
                violations.append({'key': n + '|missing', 'fn': n, 'aspect': 'anchor', 'what': '%s is no longer a public function' % n, 'where': n, 'cell': '-', 'witness': '-'})
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec.rule,
            'functions_analysed': len(fns),
            'cells_of_inputs': len(items),
            'obligations': obl, 'discharged': ok,
            'undecided': len(und),
            'undecided_sample': und[:25],
            'abstract_states_checked': sum(r['cells'] for r in results),
            'mir_statements_interpreted': sum(r['steps'] for r in results),
            'summaries_used': sorted(set(x for r in results for x in r['sum'])),
            'bodies_inlined': sorted(set(x for r in results for x in r['inl']))[:200],
            'functions': fns,
            'missing_anchors': missing,
            'per_function': per_fn(results),
        },
        'assumptions': spec.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    tmp = os.path.join(evd, '.%s.json.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(evd, prop + '.json'))
    print('%s: %d functions, %d cells, %d/%d obligations discharged, %d undecided, %d violations, %.1fs' % (prop, len(fns), len(items), ok, obl, len(und), len(violations), wall))
    if violations:
        rp = os.path.join(evd, 'replay-%s.json' % prop)
        json.dump({'property': prop, 'violations': violations}, open(rp, 'w'), indent=1)
        for v in violations[:8]:
            print('  %s [%s] in %s: %s; input: %s' % (v['where'], v['aspect'], v['cell'], v['what'], v['witness']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    sys.exit(0)


def per_fn(results):
    out = {}
    for r in results:
        o = out.setdefault(r['fn'], [0, 0, 0])
        o[0] += r['obl']
        o[1] += r['ok']
        o[2] += len(r['und'])
    return {k: 'obligations %d, discharged %d, undecided %d' % tuple(v) for k, v in sorted(out.items())}


if __name__ == '__main__':
    main()
