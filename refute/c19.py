from .lib import *
from .c09 import build, pairs_of, scores
from .c10 import ranks, weights, units, judge, locate


def gen(rng, n):
    kind = rng.choice(['bal', 'rank'])
    m = rng.choice([1, 2, 2, 3])
    num = max(size(rng, 2, 8, 40), m)
    N = num + rng.choice([0, 1])
    S = [weights(rng, N) if kind == 'bal' else scores(rng, N) for _ in range(m)]
    W = S if kind == 'bal' else [ranks(s) for s in S]
    cp = rng.choice([0.95, 1.0, 0.5])
    k = int(cp * num / m)
    u = []
    for w in W:
        u += units(rng, [w], 3 * k)
    return {'kind': kind, 'm': m, 'num': num, 'scores': S, 'cp': cp, 'pop': rng.choice(['BinaryPopulation', 'BinaryGrayPopulation']), 'rand': [rng.randrange(1 << 30), 'plain'],
            'unit': u, 'extra': ['rank'], 'times': rng.choice([1, 1, 2])}


def opkey(case):
    return case['kind'], case['m']


def check(case):
    import baumeva.ga as ga
    m, S = case['m'], case['scores']
    op = operator(opkey(case), lambda: (ga.VEGABalancedSelection if case['kind'] == 'bal' else ga.VEGARankedSelection)(m))
    W = S if case['kind'] == 'bal' else [ranks(s) for s in S]
    data = build(case)
    before = snap(list(data.population))
    for t in range(case['times']):
        with Script(case['rand'][0] + t, 'plain', case['unit']) as s:
            op.execute(data)
        out = pairs_of(data, before, ('rank',))
        n = int(case['cp'] * case['num'] / m)
        need(len(out) == 2 * n * m, '%d parents, expected %d', len(out), 2 * n * m)
        at = frozenset([0])
        for o in range(m):
            part = out[2 * n * o:2 * n * (o + 1)]
            for p in range(0, len(part), 2):
                need(part[p] != part[p + 1], 'objective %d: pair %d is one member twice', o, p // 2)
            at = judge(part, s.log, W[o], 'objective %d' % o, at)
