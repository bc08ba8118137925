from .lib import *


def scores(rng, N):
    r = rng.random()
    if r < .2:
        return [float(rng.randint(0, 2)) for _ in range(N)]
    if r < .3:
        return [1.0] * N
    if r < .5:
        return [-float(i) for i in range(N)]
    if r < .6:
        return [float(i) for i in range(N)]
    return [rng.choice([-1, 1]) * rng.random() * 10 for _ in range(N)]


def gen(rng, n):
    num = size(rng, 3, 9, 70)
    N = num + rng.choice([0, 1, 1])
    m = rng.choice([0, 0, 1, 2, 3])
    ts = rng.choice([2, 2, 3, num - 1, num, 1, 0, -1, rng.randint(2, max(2, num - 1)), num + 1])
    return {'num': num, 'm': m, 'ts': ts, 'cp': rng.choice([0.95, 1.0, 0.5, 0.34, 0.1, 0.0, 0.8]), 'rand': [rng.randrange(1 << 30), rng.choice(['plain', 'plain', 'edge'])],
            'scores': [scores(rng, N) for _ in range(max(1, m))], 'pop': rng.choice(['BinaryPopulation', 'CatPopulation', 'BinaryGrayPopulation']),
            'idx': rng.choice([0, 5]), 'dup': rng.random() < .3}


def build(case):
    import baumeva.ga as ga
    m = case.get('m', 0)
    N = len(case['scores'][0])
    rows = []
    for i in range(N):
        d = {'genotype': [str((i >> b) & 1) if not case.get('dup') else '1' for b in range(5)]}
        if case['pop'].startswith('Bin'):
            d['phenotype'] = [float(i) if not case.get('dup') else 0.0]
        d['score'] = case['scores'][0][i] if not m else [s[i] for s in case['scores']]
        d['obj_score'] = -1.0 if not m else [-s[i] for s in case['scores']]
        d['feasible'] = bool(i % 3)
        d['idx_individ'] = (i * 7 + case.get('idx', 0)) % 11
        for k in case.get('extra', ()):
            d[k] = 1
        rows.append(d)
    data = (ga.MultiGaData if m else ga.GaData)(num_generations=4, children_percent=case['cp'])
    data.population = make_pop(getattr(ga, case['pop']), rows, num_individ=case['num'], is_phenotype=case['pop'].startswith('Bin'))
    return data


def pairs_of(data, before, allow=()):
    """frame + identity of every parent: list of member indices"""
    pop = data.population
    need(len(pop) == len(before), 'population size changed')
    for i, (a, b) in enumerate(zip(pop, before)):
        need({k: v for k, v in a.items() if k != 'idx_individ' and k not in allow} == {k: v for k, v in b.items() if k != 'idx_individ' and k not in allow},
             'member %d changed from %s to %s', i, b, a)
        need(a['idx_individ'] == i, 'member %d numbered %r', i, a['idx_individ'])
    known = ids(pop)
    seen = set()
    out = []
    for p in data.parents:
        need(isinstance(p, dict), 'parent is no individual')
        s = ids([p])
        need(not s & known, 'a parent shares storage with the population')
        need(not s & seen, 'parents share storage')
        seen |= s
        i = p.get('idx_individ')
        need(type(i) is int and 0 <= i < len(pop), 'parent is not a member: %s', p)
        need(all(p.get(k) == v for k, v in pop[i].items() if k not in allow), 'parent %s differs from member %s', p, pop[i])
        out.append(i)
    need(len(out) % 2 == 0, 'odd number of parents')
    return out


def opkey(case):
    return case['m'], case['ts']


def check(case):
    import baumeva.ga as ga
    m, ts, num = case['m'], case['ts'], case['num']
    data = build(case)
    before = snap(list(data.population))
    op = operator((m, ts), lambda: ga.VEGATournamentSelection(m, ts) if m else ga.TournamentSelection(ts))
    bad = ts < 2 or ts >= num
    with Script(*case['rand']):
        try:
            op.execute(data)
        except Exception:
            if bad:
                return
            raise
    need(not bad, 'tournament size %d accepted for a population of %d', ts, num)
    out = pairs_of(data, before)
    n = int(case['cp'] * num / m) if m else int(case['cp'] * num)
    need(len(out) == 2 * n * max(1, m), '%d parents, expected %d', len(out), 2 * n * max(1, m))
    for p in range(0, len(out), 2):
        need(out[p] != out[p + 1], 'pair %d is the member %d twice', p // 2, out[p])
    for q, i in enumerate(out):
        s = case['scores'][q // (2 * n) if m else 0]
        k = sum(1 for j in range(len(s)) if j != i and s[j] <= s[i])
        need(k >= ts - 1, 'parent with score %r beats only %d of %s, tournament size %d', s[i], k, s, ts)
