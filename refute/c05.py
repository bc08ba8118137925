from .lib import *
from .c02 import setup, frame, OPS
from .c04 import pools, values, decl

NAMES = ['weak', 'normal', 'strong']


def gen(rng, n):
    op = rng.choice(OPS + ['BinStringMutation', 'CategoricalMutation'] * 2)
    r = rng.random()
    case = {'op': op, 'rand': rmode(rng)}
    if r < .25:
        case['what'] = 'init'
        case['value'] = rng.choice([['f', rng.uniform(-1, 2)], ['f', rng.choice([0.0, 1.0, -0.0, 1.0000001, -1e-9, 1e9, 0.5])], ['i', rng.randint(-1, 2)],
                                    ['s', rng.choice(NAMES + ['Weak', '', 'hard', 'STRONG', 'norm', 'none', '0.5', 'weak '])], ['n', None], ['l', [0.5]], ['b', True]])
        return case
    comb = op in OPS
    L = size(rng, 3 if comb else 1, 8)
    case['L'] = L
    if op == 'CategoricalMutation':
        case['gens'] = pools(rng, L)
        g = lambda: [rng.choice(values(p)) for p in case['gens']]
    elif op == 'BinStringMutation':
        g = lambda: [rng.choice('01') for _ in range(L)]
    else:
        g = lambda: rng.sample(range(L), L)
    if r < .85:
        case['what'] = 'ends'
        case['level'] = rng.choice([0.0, 1.0])
        case['children'] = [g() for _ in range(rng.randint(0, 6))]
    else:
        case['what'] = 'rate'
        case['rand'][1] = 'plain'
        case['level'] = rng.choice(NAMES + [0.25, 0.7])
        N = 3000 if comb else max(20, 6000 // L)
        case['children'] = [g() for _ in range(N)]
    case['warm'] = rng.random() < .5
    case.update(members=[g()], parents=[g()])
    return case


def check(case):
    import baumeva.ga as ga
    cls = getattr(ga, case['op'])
    if case['what'] == 'init':
        k, v = case['value']
        ok = (k == 'f' and 0 <= v <= 1) or (k == 's' and v in NAMES)
        try:
            cls(v)
            got = True
        except Exception:
            got = False
        need(got == ok, 'level %r %s', v, 'accepted' if got else 'rejected')
        if ok:
            cls(mutation_lvl=v)
        return
    comb = case['op'] in OPS
    L = case['L']
    if case['op'] == 'CategoricalMutation':
        d = setup(case, 'CatPopulation', gens=decl(case['gens']))
    elif case['op'] == 'BinStringMutation':
        d = setup(case, 'BinaryPopulation', idx_bits=[0, L], is_phenotype=True)
    else:
        d = setup(case)
    op = cls(case['level'])
    if case['warm']:
        d2 = copy.deepcopy(d)
        with Script(case['rand'][0] + 1, 'plain'):
            op.execute(d2)
    old = [list(c['genotype']) for c in d.children]
    with Script(*case['rand']):
        op.execute(d)
    new = [c['genotype'] for c in d.children]
    if comb:
        hit = [a != b for a, b in zip(old, new)]
    else:
        alt = [case['op'] == 'BinStringMutation' or len(values(p)) > 1 for p in case.get('gens', [0] * L)]
        hit = [a[j] != b[j] for a, b in zip(old, new) for j in range(L) if alt[j]]
    lv = case['level']
    if case['what'] == 'ends':
        need(all(h == (lv == 1.0) for h in hit), 'level %s: %d of %d changed', lv, sum(hit), len(hit))
        return
    if lv in NAMES:
        rate = {'weak': 0.03, 'normal': 0.1, 'strong': 0.3}[lv] if comb else min(1.0, {'weak': 0.3, 'normal': 1, 'strong': 3}[lv] / L)
    else:
        rate = lv
    n = len(hit)
    if n:
        f = sum(hit) / n
        tol = 6 * math.sqrt(max(rate * (1 - rate), 1e-4) / n) + 0.0015
        need(abs(f - rate) <= tol, 'level %s (rate %.4f) mutated a fraction %.4f of %d', lv, rate, f, n)
