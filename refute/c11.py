from .lib import *
from .c09 import scores


def gen(rng, n):
    multi = rng.random() < .3
    num = size(rng, 1, 8, 40)
    N = num + rng.choice([0, 1, 1])
    C = rng.randint(1, num)
    mode = rng.choice(['best', 'best', 'random'])
    alpha = rng.choice([1, 2, 3, 50])
    c = {'multi': multi, 'num': num, 'mode': 'best' if multi else mode, 'scores': scores(rng, N), 'genes': [[rng.randrange(alpha), 0] for _ in range(N)],
         'kids': [[rng.randrange(alpha), 1 if rng.random() < .5 else 0] for _ in range(C)], 'rand': rmode(rng), 'sorted': rng.random() < .5,
         'pop': rng.choice(['CatPopulation', 'BinaryPopulation'])}
    if multi:
        c['ranks'] = sorted(rng.choice([1, 1, 2, 3]) for _ in range(N))
        c['ranks'][0] = 1
        c['pop'] = 'BinaryPopulation'
        c['kids'] = c['kids'][:rng.randint(0, C)]
    return c


def check(case):
    import baumeva.ga as ga
    multi = case['multi']
    bin_ = case['pop'].startswith('Bin')

    def row(i, g, s, **kw):
        d = {'genotype': list(g)}
        if bin_:
            d['phenotype'] = [1.0 * i] if s is not None else None
        d.update(score=s, obj_score=None if s is None else -s, feasible=True, idx_individ=i if s is not None else None)
        d.update(kw)
        return d
    sc = sorted(case['scores']) if case['sorted'] else case['scores']
    rows = [row(i, g, s, **({'rank': case['ranks'][i]} if multi else {})) for i, (g, s) in enumerate(zip(case['genes'], sc))]
    kids = [row(0, g, None, **({'rank': None} if multi else {})) for g in case['kids']]
    d = (ga.MultiGaData if multi else ga.GaData)(num_generations=5)
    pc = getattr(ga, case['pop'])
    d.population = make_pop(pc, rows, num_individ=case['num'], is_sorted=bool(case['sorted']) and not multi, is_phenotype=bin_)
    d.children = make_pop(pc, kids)
    d.parents = make_pop(pc, [])
    content = {id(r): snap(r) for r in rows + kids}
    members = {id(r): r for r in rows}
    op = (ga.MultiNewGeneration if multi else ga.NewGeneration)(case['mode'])
    with Script(*case['rand']):
        op.execute(d)
    new = d.population
    need(isinstance(new, pc), 'the new population is a %s', type(new).__name__)
    need(new.num_individ == case['num'], 'requested size became %r', new.num_individ)
    for x in new:
        if id(x) in content:
            need(x == content[id(x)], 'a kept individual was altered: %s -> %s', content[id(x)], x)
        else:
            need(any(x == r for r in content.values()), 'individual %s comes from nowhere', x)
    for r in rows + kids:
        need(r == content[id(r)], 'an individual was altered: %s -> %s', content[id(r)], r)
    left = list(new)
    for k in kids:
        j = next((j for j, x in enumerate(left) if x is k), None)
        if j is None:
            j = next((j for j, x in enumerate(left) if x == k), None)
        need(j is not None, 'child %s is lost', k)
        left.pop(j)
    need(all(id(x) in members or any(x == r for r in rows) for x in left), 'something other than children and old members was added')
    if multi:
        for r in rows:
            if r['rank'] == 1:
                need(any(x is r or x == r for x in left), 'non-dominated individual %s is lost', r)
    else:
        need(len(new) == case['num'] + 1, 'size %d, requested %d', len(new), case['num'])
        best = max(r['score'] for r in rows)
        need(any(x['score'] == best for x in left), 'best score %r is lost, kept %s', best, [x['score'] for x in left])
    need(not new.is_sorted or all(x['score'] is not None for x in new), 'the unevaluated population claims to be sorted')
