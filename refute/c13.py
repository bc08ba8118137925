from .lib import *

DATA = [None, 0, '', [], 7, 'data', {'k': 1}, False, 0.0]


def gen(rng, n):
    kind = rng.choice(['hyp', 'hyp', 'vega', 'ffga'])
    pop = rng.choice(['BinaryPopulation', 'BinaryGrayPopulation', 'CatPopulation', 'OrderCatPopulation']) if kind == 'hyp' else rng.choice(['BinaryPopulation', 'BinaryGrayPopulation'])
    N = size(rng, 1, 6, 30)
    m = 1 if kind == 'hyp' else rng.choice([1, 2, 3])
    cond = rng.random() < .4
    conds = ['optimize'] * m
    if cond:
        for _ in range(rng.randint(1, 3)):
            conds.insert(rng.randint(0, len(conds)), rng.choice(['<=', '!=']))
    return {'kind': kind, 'pop': pop, 'N': N, 'm': m, 'conds': conds if cond else rng.choice([None, conds]), 'penal': cond,
            'data': rng.randrange(len(DATA)), 'target': rng.choice([None, None, 0, 2.5, -3]) if kind != 'vega' else rng.choice([None, [rng.choice([0, 1.5, -2]) for _ in range(m)]]),
            'done': [rng.random() < .4 for _ in range(N)], 'wrap': rng.choice(['plain', 'list', 'tuple']), 'seed': rng.randrange(1 << 30),
            'gens': [[-2, 5, 1], [0, 3, 0.5]], 'table': [[float(rng.randint(-3, 3)) for _ in range(len(conds))] for _ in range(12)],
            'zero': rng.random() < .3, 'idxgen': rng.randint(0, 4)}


def check(case):
    import baumeva.ga as ga
    kind, m = case['kind'], case['m']
    calls = []
    rng = random.Random(case['seed'])
    bin_ = case['pop'].startswith('Bin')
    pc = getattr(ga, case['pop'])
    tab = case['table']

    def values(x):
        h = sum((i + 1) * (hash(round(float(v), 6)) if not isinstance(v, str) else len(v) + ord(v[0])) for i, v in enumerate(x)) % len(tab)
        return list(tab[h])

    data_in = snap(DATA[case['data']])

    def obj(*a):
        if data_in is not None:
            need(len(a) == 2 and a[0] is data_in, 'objective called with %r although extra input %r was given', a, data_in)
            x = a[1]
        else:
            need(len(a) == 1, 'objective called with %r without extra input', a)
            x = a[0]
        calls.append(snap(x))
        v = values(x)
        if kind == 'hyp' and not case['penal']:
            v = v[:1]
            return {'plain': v[0], 'list': v, 'tuple': tuple(v)}[case['wrap']]
        return v if case['wrap'] == 'list' else tuple(v)

    pcalls = []

    class Pen(ga.BasePenalty):
        def get_sum_conditional_func(self, conditionals, values):
            pass

        def execute(self, conditionals, values, **kw):
            pcalls.append((list(conditionals), list(values)))
            return sum((i + 2) * abs(v) for i, v in enumerate(values))
    conds = case['conds']
    ckeep = snap(conds)
    cls = {'hyp': ga.HyperbolaFitness, 'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[kind]
    fit = cls(obj, obj_value=case['target'], input_data=data_in, penalty=Pen() if case['penal'] else None, conditions=conds)
    with Script(case['seed']):
        pop = pc()
        gens = tuple(tuple(g) for g in case['gens']) if bin_ else (tuple([['a', 'b', 'cc'], (1, 9, 2)]) if case['pop'] == 'CatPopulation' else (1, 6, 5))
        pop.set_params(num_individ=case['N'], gens=gens)
        pop.fill()
        if bin_:
            for d in pop:
                if rng.random() < .5:
                    d['phenotype'] = None
    for i, d in enumerate(pop):
        if case['done'][i]:
            one = kind != 'vega'
            z = case['zero']
            d['score'] = (0.0 if z else 123.0 + i) if one else [0.0 if z else 100.0 + i] * m
            d['obj_score'] = (0 if z else -77.0) if kind == 'hyp' else [9.0] * m
            d['feasible'] = i % 2 == 0
    ga_data = (ga.GaData if kind == 'hyp' else ga.MultiGaData)(num_generations=5)
    ga_data.population = pop
    ga_data.idx_generation = case['idxgen']
    ga_data.best_solution = {'feasible': True, 'score': 1, 'pareto_set': []}
    before = snap(list(pop))
    order = [id(d) for d in pop]
    fit.execute(ga_data)
    need(ga_data.population is pop and [id(d) for d in pop] == order, 'the population was replaced or reordered')
    need(conds == ckeep, "the caller's conditions changed")
    dec = []
    for d, b in zip(pop, before):
        need(d['genotype'] == b['genotype'], 'genes changed from %r to %r', b['genotype'], d['genotype'])
        if bin_:
            ph = pop.binary_individ_to_float(list(b['genotype']))
            need(d['phenotype'] == ph, 'decoded values are %r, expected %r', d['phenotype'], ph)
            dec.append(ph)
        else:
            dec.append(b['genotype'])
    fresh = [i for i, b in enumerate(before) if b['score'] is None]
    if kind == 'hyp':
        need(calls == [dec[i] for i in fresh], 'objective calls %s, expected one for each of %s', calls, [dec[i] for i in fresh])
    pc2 = list(pcalls)
    for i, (d, b) in enumerate(zip(pop, before)):
        if b['score'] is not None:
            need(d['obj_score'] == b['obj_score'] and d['feasible'] == b['feasible'], 'evaluated individual changed from %s to %s', b, d)
            if kind != 'ffga':
                need(d['score'] == b['score'], 'evaluated individual rescored from %r to %r', b['score'], d['score'])
            continue
        v = values(dec[i])
        pen = 0
        if case['penal']:
            opt = [x for x, c in zip(v, conds) if c == 'optimize']
            rest = [x for x, c in zip(v, conds) if c != 'optimize']
            rc = [c for c in conds if c != 'optimize']
            pen = sum((k + 2) * abs(x) for k, x in enumerate(rest))
            need((rc, rest) in pc2, 'the penalty was not asked for conditions %s and values %s but for %s', rc, rest, pc2[:3])
        else:
            opt = v[:m]
        exp = opt[0] if kind == 'hyp' else opt
        need(d['obj_score'] == exp, 'objective values %r stored as %r', exp, d['obj_score'])
        f = lambda t, x: 1.0 / (1 + abs(t - x) + pen) if t is not None else -(x + pen)
        T = case['target']
        if kind == 'hyp':
            need(close(d['score'], f(T, opt[0])), 'fitness %r, expected %r', d['score'], f(T, opt[0]))
        elif kind == 'vega':
            e = [f(None if T is None else T[k], x) for k, x in enumerate(opt)]
            need(len(d['score']) == m and all(close(a, b) for a, b in zip(d['score'], e)), 'fitness %r, expected %r', d['score'], e)
        elif kind == 'ffga':
            need(close(d['score'], 1 / (1 + d['rank'])), 'fitness %r for rank %r', d['score'], d['rank'])
