from .lib import *


def gen(rng, n):
    m = rng.choice([1, 2, 2, 3])
    T = rng.randint(1, 3)
    v = lambda: [float(rng.choice([0, 1, 2, 3, -1])) if rng.random() < .8 else rng.random() for _ in range(m)]
    gens = []
    for t in range(T):
        N = size(rng, 1, 6, 20)
        if gens and rng.random() < .3:
            gens.append(snap(gens[-1]))
        else:
            gens.append([v() for _ in range(N)])
    return {'m': m, 'gens': gens, 'kind': rng.choice(['ffga', 'vega']), 'done': rng.random() < .5, 'back': rng.random() < .3, 'data': rng.choice([None, 0, 5])}


def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def check(case):
    import baumeva.ga as ga
    m = case['m']
    ga_data = ga.MultiGaData(num_generations=9)
    data = case['data']
    obj = (lambda x: tuple(x[:m])) if data is None else (lambda d, x: list(x[:m]))
    fit = (ga.FFGAFitness if case['kind'] == 'ffga' else ga.VEGAHyperbolaFitness)(obj, input_data=data)
    prev, stall = [], 0
    for t, vals in enumerate(case['gens']):
        rows = []
        for i, v in enumerate(vals):
            old = case['done'] and i % 2 == 0
            rows.append({'genotype': ['0', '1'], 'phenotype': list(v) + [0.0], 'score': (0.5 if case['kind'] == 'ffga' else [0.1] * m) if old else None,
                         'obj_score': list(v) if old else None, 'feasible': True, 'idx_individ': i})
            if old:
                rows[-1]['rank'] = 3
        ga_data.population = make_pop(ga.BinaryPopulation, list(rows), num_individ=len(rows), is_phenotype=True, is_sorted=False)
        fit.execute(ga_data)
        for i, (r, v) in enumerate(zip(rows, vals)):
            k = 1 + sum(1 for w in vals if dom(w, v))
            need(r['rank'] == k, 'rank of %s among %s is %r, expected %d', v, vals, r['rank'], k)
            need(r['genotype'] == ['0', '1'] and r['phenotype'] == list(v) + [0.0], 'individual changed: %s', r)
            need(r['obj_score'] == list(v), 'objective values %s of %s', r['obj_score'], v)
            if case['kind'] == 'ffga':
                need(close(r['score'], 1 / (1 + k)), 'fitness %r for rank %d', r['score'], k)
        want = [snap(r) for r in rows if r['rank'] == 1]
        ga_data.update()
        need(sorted(map(id, ga_data.population)) == sorted(map(id, rows)), 'the update changed the population')
        front = ga_data.best_solution['pareto_set']
        key = lambda d: json.dumps(d, sort_keys=True)
        need(sorted(map(key, front)) == sorted(map(key, want)), 'reported front %s, members of rank one %s', front, want)
        need(not ids(front) & ids(rows), 'the front shares storage with the population')
        if front != prev:
            stall = 0
            need(ga_data.best_solution['idx_generation'] == t, 'new front stamped %r in generation %d', ga_data.best_solution['idx_generation'], t)
        else:
            stall += 1
        need(ga_data.num_generation_no_improve == stall, 'front %s the previous one but the stagnation counter is %r', 'equals' if stall else 'differs from', ga_data.num_generation_no_improve)
        need(ga_data.idx_generation == t + 1, 'generation number %r', ga_data.idx_generation)
        prev = snap(front)
        for r in rows:
            r['phenotype'].append(9.0)
            r['rank'] = 99
        need(ga_data.best_solution['pareto_set'] == prev, 'the front follows later changes of members')
