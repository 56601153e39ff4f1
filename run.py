#!/usr/bin/env python3
"""python3-vt run.py PROPERTY [quick|thorough] [--only HARNESS[:TAG]] [-j N]"""
import os
import sys
import json
import time
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'symex'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    jobs, allv = 8, False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--only':
            only = a.pop(0)
        elif x == '--all':
            allv = True
        elif x == '-j':
            jobs = int(a.pop(0))
        else:
            tier = x
    t0 = time.time()
    import runtime
    import common
    runtime.install()
    todo = []
    for key, h in common.HARNESSES.items():
        if h.prop != prop:
            continue
        for tag in h.params:
            if tag.startswith('+') and tier != 'thorough':
                continue
            if only and only not in (h.name, h.name + ':' + tag):
                continue
            todo.append((key, tag, tier, h.opts.get('budget', 600 if tier == 'quick' else 3000)))
    if not todo:
        print('no harness for', prop)
        return 2
    todo.sort(key=lambda t: -common.HARNESSES[t[0]].opts.get('weight', 1))
    results = []
    ctx = mp.get_context('fork')
    cap = 840 if tier == 'quick' else 6 * 3600
    pool = ctx.Pool(min(jobs, len(todo)), maxtasksperchild=1)
    viol = False
    errors = []
    try:
        it = pool.imap_unordered(runtime.run_one, todo)
        for _ in todo:
            try:
                r = it.next(timeout=max(1, cap - (time.time() - t0)))
            except mp.TimeoutError:
                errors.append('time limit reached')
                break
            results.append(r)
            if r['violations'] and not allv:
                viol = True
                break
    finally:
        pool.terminate()
        pool.join()
    return report(prop, tier, results, todo, errors, t0, common)


def report(prop, tier, results, todo, errors, t0, common):
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    viols = [(r['name'],) + tuple(v) for r in results for v in r['violations']]
    for r in results:
        errors += r['errors']
        if not r['violations'] and not r['errors'] and not r['paths']:
            errors.append('%s: no path completes (vacuous)' % r['name'])
        if not r['violations'] and r['paths'] and not r['witness_ok']:
            errors.append('%s: no witness of a completed path replays on the real code: %s' % (r['name'], r['notes'][:2]))
        if not r['violations'] and r['paths'] and not r['labels']:
            errors.append('%s: no assertion reached' % r['name'])
    hs = [common.HARNESSES[k] for k in sorted({t[0] for t in todo})]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': sum(r['witness_ok'] for r in results),
            'samples': [s for r in results for s in r['samples'][:2]][:12],
            'explanation': 'states = complete symbolic paths through the real code (each stands for every input that takes '
                           'it), transitions = branch decisions put to the solver; every assertion on every path is '
                           'discharged by the solver over all values within the bounds.',
            'functions_encoded': funcs,
            'harnesses': [{'name': r['name'], 'paths': r['paths'], 'queries': r['stats']['queries'],
                           'solver_s': round(r['stats']['solver_s'], 2), 'wall_s': round(r['wall'], 2),
                           'assertions_proved': r['stats']['proved'], 'undefined_paths': r['undefined'],
                           'assertions': r['labels'], 'unknown_branch_queries': r['stats']['unknown_branches']}
                          for r in sorted(results, key=lambda r: r['name'])],
            'bounds': {h.name: h.bounds for h in hs},
            'queries': tot.get('queries', 0), 'queries_unsat': tot.get('unsat', 0), 'queries_sat': tot.get('sat', 0),
            'queries_unknown': tot.get('unknown', 0), 'cache_hits': tot.get('cached', 0),
            'assertions_discharged': tot.get('proved', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 2),
            'unwinding': 'every path runs to completion; a path with more decisions than the limit is reported as an error, '
                         'never dropped',
        },
        'assumptions': ['floating point numbers are modelled as exact reals',
                        'numpy, shapely and scipy are replaced by exact models of their documented behaviour; every reported '
                        'violation and sampled witnesses of proved paths are replayed on the real libraries'] +
                       sorted({a for h in hs for a in h.assumes}) + ['stub: ' + s for s in sorted({s for h in hs for s in h.stubs})],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not os.environ.get('VERIF_NOEVIDENCE'):
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for r in sorted(results, key=lambda r: r['name']):
        s = r['stats']
        print('%-60s paths %5d  proved %5d  queries %6d  solver %7.1fs  wall %7.1fs  wit %d undef %d' % (
            r['name'], r['paths'], s['proved'], s['queries'], s['solver_s'], r['wall'], r['witness_ok'], r['undefined']))
    for v in viols:
        print('  %s: %s -> real code: %s (%s)' % (v[0], v[1], v[3], v[4]))
        print('    inputs: %s' % json.dumps(v[5])[:600])
    for e in errors[:20]:
        print('ERROR', e)
    import runtime
    for fid in sorted({k for r in results for k in r['known']}):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, runtime.KNOWN[fid]['what']))
    if viols:
        print('VIOLATION property=%s replay=%s' % (prop, viols[0][2]))
        return 1
    if errors:
        return 2
    print('OK property=%s: %d paths, %d assertions discharged, %d queries, %.1f s' % (
        prop, tot.get('paths', 0), tot.get('proved', 0), tot.get('queries', 0), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
