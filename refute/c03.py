from .lib import *

KINDS = {'one': 'OnePointCrossover', 'two': 'TwoPointCrossover', 'uni': 'UniformCrossover'}
MINLEN = {'one': 2, 'two': 3, 'uni': 1}


def rows(pop, genes, evaluated=True, base=0, extra=()):
    out = []
    for i, g in enumerate(genes):
        d = {'genotype': list(g)}
        if pop.startswith('Binary'):
            d['phenotype'] = [float(i)]
        d.update(score=float(i + base), obj_score=-float(i + base), feasible=(i % 2 == 0), idx_individ=i + base)
        for k in extra:
            d[k] = i + 7
        out.append(d)
    return out


def gen(rng, n):
    kind = rng.choice(list(KINDS))
    L = size(rng, MINLEN[kind], 12)
    pop = rng.choice(['BinaryPopulation', 'BinaryGrayPopulation', 'CatPopulation', 'OrderCatPopulation'])
    P = rng.randint(0, 4) if rng.random() < .9 else rng.randint(5, 30)
    N = rng.randint(1, 4)
    same = rng.random() < .2
    def g():
        if pop.startswith('Binary'):
            return [rng.choice('01') for _ in range(L)]
        return [rng.choice(['a', 'b', 1, 2.5, 'c%d' % rng.randint(0, 5)]) for _ in range(L)]
    parents = [g() for _ in range(2 * P)]
    if same and P:
        parents[1] = list(parents[0])
    return {'kind': kind, 'pop': pop, 'members': [g() for _ in range(N)], 'parents': parents, 'rand': rmode(rng),
            'extra': ['rank'] if rng.random() < .3 else [], 'both': rng.random() < .25}


def run(case, clsname):
    import baumeva.ga as ga
    pc = getattr(ga, case['pop'])
    data = ga.GaData(num_generations=3)
    extra = case.get('extra', [])
    data.population = make_pop(pc, rows(case['pop'], case['members'], extra=extra), num_individ=len(case['members']),
                               is_phenotype=case['pop'].startswith('Binary'))
    data.parents = make_pop(pc, rows(case['pop'], case['parents'], base=50, extra=extra))
    before = (snap(list(data.population)), snap(list(data.parents)))
    popobj, parobj = data.population, data.parents
    known = ids(data.population) | ids(data.parents)
    op = operator(clsname, getattr(ga, clsname))
    m = 2 if case.get('both') and hasattr(op, 'num_offsprings') else 1
    if hasattr(op, 'num_offsprings'):
        op.num_offsprings = m
    with Script(*case['rand']):
        op.execute(data)
    need(data.population is popobj and data.parents is parobj, 'population or parents list replaced')
    need(list(data.population) == before[0], 'current population changed')
    need(list(data.parents) == before[1], 'parents changed')
    ch = data.children
    need(isinstance(ch, list) and len(ch) == len(case['parents']) // 2 * m, 'expected %d children, got %d', len(case['parents']) // 2 * m, len(ch))
    need(len({id(c) for c in ch}) == len(ch) and len({id(c['genotype']) for c in ch}) == len(ch), 'children share storage')
    for c in ch:
        need(id(c) not in known and id(c['genotype']) not in known, 'child shares storage with a parent or member')
        need(isinstance(c['genotype'], list), 'genotype is not a list')
        need(set(c) == set(data.population[0]), 'child has keys %s', sorted(c))
        for k, v in c.items():
            if k == 'feasible':
                need(v is True, 'child not marked feasible')
            elif k != 'genotype':
                need(v is None, 'child has %s=%r before evaluation', k, v)
    return [(i // m, c) for i, c in enumerate(ch)]


def opkey(case):
    return case['kind']


def check(case):
    ch = run(case, KINDS[case['kind']])
    for i, c in ch:
        a, b = case['parents'][2 * i], case['parents'][2 * i + 1]
        g = c['genotype']
        need(len(g) == len(a), 'child of length %d from parents of length %d', len(g), len(a))
        for j, v in enumerate(g):
            need(v == a[j] or v == b[j], 'gene %d of child %d is %r, parents have %r and %r', j, i, v, a[j], b[j])
