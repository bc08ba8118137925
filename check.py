#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Deductive check of one property on the code in /repo's working tree: every contract of specs/<property>.py symbolically
executes the real functions (read from /repo on this run) and discharges the generated obligations; undischarged ones are
violations.  A search for a concrete failing input on the real code runs beside it; its result can only add violations."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
TIER = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMITS = {'quick': dict(contract=300, search=8, hunt=60, total=600), 'thorough': dict(contract=1500, search=120, hunt=300, total=3000)}[TIER]


def repo_head():
    import hashlib
    root = os.environ.get('BAUM_REPO', '/repo')
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(root, 'baumeva'))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def prove_one(prop, idx, attempt, q):
    """one contract in its own process; further attempts use other solver seeds and more time"""
    t0 = time.time()
    out = {'idx': idx, 'name': '?', 'obls': [], 'error': None}
    try:
        sys.setrecursionlimit(20000)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        m = importlib.import_module('specs.' + prop.lower())
        if attempt:
            import z3
            import pyvc.core
            pyvc.core.Solver.attempt = attempt
            z3.set_param('smt.random_seed', attempt)
            z3.set_param('sat.random_seed', attempt)
        c = m.CONTRACTS[idx]
        out['name'] = getattr(c, 'cname', str(idx))
        h = c()
        out['name'] = h.name
        e = h.e
        collect(out, e)
        out['tb'] = ''
    except BaseException as ex:
        out['error'] = '%s: %s' % (type(ex).__name__, ex)
        out['tb'] = traceback.format_exc()[-3000:]
        try:
            import pyvc.harness
            h = pyvc.harness.LAST
            if h is not None:
                out['name'] = h.name
                collect(out, h.e)
        except Exception:
            pass
    out['secs'] = time.time() - t0
    q.put(out)


def collect(out, e):
    out['obls'] = [(o.label, o.where, o.ok, o.how, round(o.secs, 3), o.model) for o in e.obls]
    out['functions'] = sorted(e.functions)
    out['assumed'] = sorted(str(a) for a in e.assumed)
    out['lemmas'] = {str(k): v for k, v in e.lemmas.items()}
    out['solver'] = e.S.time
    out['queries'] = e.S.queries
    out['loops'] = e.loops


def search_one(prop, seconds, seed, q):
    try:
        from refute import lib
        m = importlib.import_module('refute.' + prop.lower())
        n, d, samples, fail = lib.search(m, seconds, seed)
        q.put({'search': True, 'n': n, 'distinct': d, 'samples': samples, 'fail': fail, 'error': None})
    except BaseException as ex:
        q.put({'search': True, 'n': 0, 'distinct': 0, 'samples': [], 'fail': None, 'error': '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])})


def pool(jobs, limit, nproc, stop=None):
    """run (target, args) in processes of their own; results in order of completion; a job over the limit gives None"""
    ctx = mp.get_context('fork')
    res, run, todo = [], [], list(enumerate(jobs))
    t_end = time.time() + LIMITS['total']
    while todo or run:
        while todo and len(run) < nproc:
            k, (f, a) = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=f, args=a + (q,))
            p.start()
            run.append((k, p, q, time.time()))
        for it in list(run):
            k, p, q, t = it
            if not q.empty():
                r = q.get()
                p.join(2)
                if p.is_alive():
                    p.kill()
                res.append((k, r))
                run.remove(it)
            elif not p.is_alive():
                if q.empty():
                    res.append((k, None))
                    run.remove(it)
            elif time.time() - t > limit or time.time() > t_end:
                p.kill()
                res.append((k, 'timeout'))
                run.remove(it)
        if stop and stop(res):
            for k, p, q, t in run:
                p.kill()
            break
        time.sleep(0.02)
    return res


def main():
    prop = sys.argv[1].upper()
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    bad = []          # (obligation text)
    err = None
    try:
        spec = importlib.import_module('specs.' + prop.lower())
        ncon = len(spec.CONTRACTS)
        info = getattr(spec, 'INFO', {})
    except BaseException as ex:
        err = '%s: %s' % (type(ex).__name__, ex)
        bad.append('the code under contract cannot be loaded: ' + err)
        ncon, info = 0, {}
    jobs = [(search_one, (prop, LIMITS['search'], SEED))] + [(prove_one, (prop, i, 0)) for i in range(ncon)]
    found = lambda res: any(isinstance(r, dict) and r.get('search') and r.get('fail') for _, r in res)
    since = []

    def stop(res):
        """with a failing input in hand, go on only until the obligation it violates is known"""
        if not found(res):
            return False
        since.append(time.time())
        named = any(isinstance(r, dict) and not r.get('search') and (r['error'] or any(not o[2] for o in r['obls'])) for _, r in res)
        return named or time.time() - since[0] > 120
    res = dict(pool(jobs, LIMITS['contract'], 8, stop))
    failed = [k for k, r in res.items() if k and (not isinstance(r, dict) or r['error'] or not all(o[2] for o in r['obls']))]
    if not found(res.items()) and 0 < len(failed) <= 6 and time.time() - t0 < LIMITS['total'] / 2:
        # an obligation no solver could decide is tried again before it counts; any complete discharge is a proof
        pairs = [(k, a) for a in (1, 2) for k in failed]
        done = lambda r: isinstance(r, dict) and not r['error'] and r['obls'] and all(o[2] for o in r['obls'])
        for j, r in pool([(prove_one, (prop, k - 1, a)) for k, a in pairs], LIMITS['contract'] / 2, 8):
            if done(r):
                res[pairs[j][0]] = r
    s0 = res.get(0)
    fail = s0['fail'] if isinstance(s0, dict) else None
    evals = s0['n'] if isinstance(s0, dict) else 0
    serr = (s0 or {}).get('error') if isinstance(s0, dict) else 'search process died'
    obls, funcs, assumed, lemmas, solver, queries, contracts, backs, loops = [], set(), set(), {}, 0.0, 0, [], {}, 0
    for i in range(ncon):
        r = res.get(i + 1)
        if not isinstance(r, dict):
            if fail is None and i + 1 in res:
                bad.append('contract %d: %s' % (i, r or 'prover process died'))
            continue
        n_ok = sum(1 for o in r['obls'] if o[2])
        contracts.append({'contract': r['name'], 'obligations': len(r['obls']), 'discharged': n_ok, 'seconds': round(r['secs'], 2)})
        for o in r['obls']:
            obls.append(o)
            backs[o[3]] = backs.get(o[3], 0) + (1 if o[2] else 0)
            if not o[2]:
                bad.append('%s: obligation "%s" at %s (%s)%s' % (r['name'], o[0], o[1], o[3], '\n  model: ' + o[5] if o[5] else ''))
        funcs |= set(r.get('functions', ()))
        assumed |= set(r.get('assumed', ()))
        for k, v in r.get('lemmas', {}).items():
            lemmas[k] = lemmas.get(k, 0) + (v if isinstance(v, int) else 1)
        solver += r.get('solver', 0)
        queries += r.get('queries', 0)
        loops += r.get('loops', 0)
        if r['error']:
            bad.append('%s: not verified: %s' % (r['name'], r['error']))
        elif not r['obls']:
            bad.append('%s: no obligations were generated' % r['name'])
    if fail is None and bad:
        hunt = pool([(search_one, (prop, LIMITS['hunt'], SEED * 1000 + k)) for k in range(1, 9)], LIMITS['hunt'] * 3, 8, found)
        for _, r in hunt:
            if isinstance(r, dict):
                evals += r['n']
                if r['fail'] and fail is None:
                    fail = r['fail']
    if serr and not fail and not bad:
        print('search error:', serr)
        bad.append('the concrete search failed: ' + serr)
    ok = sum(1 for o in obls if o[2])
    violated = bool(bad or fail)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
          'coverage': {'obligations': len(obls), 'discharged': ok,
                       'checker_cmd': 'python3-vt check.py %s %s' % (prop, TIER),
                       'trusted_base': TRUSTED + info.get('trusted', []),
                       'contracts': contracts, 'functions_under_contract': sorted(funcs),
                       'obligations_by_back_end': backs, 'solver_seconds': round(solver, 2), 'solver_queries': queries,
                       'loops_with_invariants': loops, 'lemma_instances': lemmas,
                       'concrete_search': {'evaluations': evals, 'distinct': s0['distinct'] if isinstance(s0, dict) else 0,
                                           'samples': s0['samples'][:1] if isinstance(s0, dict) else [],
                                           'rule': 'executable contract of the property run on the real code with generated inputs and '
                                                   'scripted random draws; not counted as proof'},
                       'source_digest': repo_head(),
                       'failed': bad[:40]},
          'assumptions': ASSUMPTIONS + info.get('assumptions', []) + sorted(assumed),
          'wall_s': round(time.time() - t0, 2), 'violations': int(violated)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for line in known(prop):
        print(line)
    print('%s: %d contracts, %d obligations, %d discharged, %d concrete evaluations, %.1f s' % (prop, ncon, len(obls), ok, evals, time.time() - t0))
    if violated:
        d = {'property': prop, 'obligations': bad, 'digest': repo_head()}
        if fail:
            d['case'], d['message'] = fail
            d['replay_cmd'] = 'python3-vt /verif/replay.py ' + replay
        with open(replay, 'w') as f:
            json.dump(d, f, indent=1, default=str)
        for b in bad[:10]:
            print('  failed:', b[:600])
        if fail:
            print('  failing input:', str(fail[1])[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if fail else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def known(prop):
    """findings recorded but not repaired"""
    out = []
    try:
        for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            if line.startswith('known: property=%s ' % prop):
                out.append('KNOWN-FINDING: ' + line[len('known: '):].strip())
    except OSError:
        pass
    return out


def ver(pkg):
    import importlib.metadata
    try:
        return importlib.metadata.version(pkg)
    except importlib.metadata.PackageNotFoundError:
        return '?'


TRUSTED = ['the pyvc engine (symbolic semantics of the Python subset and of the built-ins used: pyvc/*.py)',
           'z3 %s / cvc5 %s' % (ver('z3-solver'), ver('cvc5')), 'the contracts in specs/']
ASSUMPTIONS = ['Python floats are treated as mathematical reals',
               'termination of loops is not proved (partial correctness)',
               'random draws are arbitrary values within the documented range of the random-module call',
               'members of a population are pairwise distinct objects with their own gene lists in the pre-state']

if __name__ == '__main__':
    main()
