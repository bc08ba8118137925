from .lib import *
from .c09 import scores


def gen(rng, n):
    T = rng.randint(1, 7)
    gens = []
    level = rng.choice([-5.0, 0.0, 1.0])
    for t in range(T):
        N = size(rng, 1, 6, 40)
        s = scores(rng, N)
        r = rng.random()
        if r < .5:
            s = [min(x, level) for x in s]
            if r < .3:
                s[rng.randrange(N)] = level
        elif r < .8:
            level += rng.choice([1.0, 1e-9, 0.5])
            s[rng.randrange(N)] = level
        gens.append(s)
    return {'gens': gens, 'pop': rng.choice(['BinaryPopulation', 'CatPopulation']), 'start': rng.choice([0, 0, 3]), 'presort': rng.random() < .3}


def check(case):
    import baumeva.ga as ga
    d = ga.GaData(num_generations=20)
    pc = getattr(ga, case['pop'])
    best, stall = None, 0
    hist = ([], [], [])
    kept = None
    for t, s in enumerate(case['gens']):
        if case['presort']:
            s = sorted(s)
        rows = []
        for i, x in enumerate(s):
            r = {'genotype': [str(i), str(t)], 'score': x, 'obj_score': -x, 'feasible': i % 2 == 0, 'idx_individ': i}
            if case['pop'].startswith('B'):
                r['phenotype'] = [1.5 * i, t]
            rows.append(r)
        before = snap(rows)
        d.population = make_pop(pc, list(rows), num_individ=len(s), is_sorted=case['presort'])
        d.update()
        need(sorted(map(id, d.population)) == sorted(map(id, rows)), 'the population was changed by the update')
        need(rows == before, 'a member was changed by the update')
        top = max(s)
        improved = best is None or top > best
        hist[0].append(top)
        hist[1].append(sorted(s)[len(s) // 2])
        hist[2].append(min(s))
        b = d.best_solution
        if improved:
            if best is not None:
                stall = 0
            best = top
            need(b.get('idx_generation') == t, 'best of generation %d stamped %r', t, b.get('idx_generation'))
            need(any(m['score'] == top and {k: v for k, v in b.items() if k != 'idx_generation'} == m for m in before), 'best solution %s is no copy of a best member', b)
            need(not ids([b]) & ids(rows) and all(b is not r for r in rows), 'the best solution shares storage with a member')
            kept = snap(b)
        else:
            stall += 1
        need(b['score'] == best, 'best score %r, expected %r', b['score'], best)
        need(b == kept, 'the best solution changed without improvement: %s -> %s', kept, b)
        need(d.num_generation_no_improve == stall, 'generation %d: stagnation counter %r, expected %d', t, d.num_generation_no_improve, stall)
        need(d.idx_generation == t + 1, 'generation number %r after %d updates', d.idx_generation, t + 1)
        for nm, a, e in zip(('best', 'middle', 'worst'), (d.historical_best, d.historical_mediocre, d.historical_worst), hist):
            need(list(a) == e, 'generation %d: history of %s scores is %s, expected %s', t, nm, a, e)
        for r in rows:
            r['genotype'][0] = 'changed'
            r['score'] = None
            if 'phenotype' in r:
                r['phenotype'].append('x')
        need(d.best_solution == kept, 'the best solution follows later changes of a member')
    e = ga.GaData(num_generations=3)
    need(e.idx_generation == 0 and e.num_generation_no_improve == 0 and e.best_solution is None and e.historical_best == [] and e.historical_worst == [] and e.historical_mediocre == [],
         'a new run starts with data of an earlier one')
