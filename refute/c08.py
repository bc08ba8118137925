from .lib import *
from .c06 import bgens, bvalues, width, indices, spacing


def gen(rng, n):
    K = size(rng, 1, 5, 12)
    gens = bgens(rng, K)
    rows = [[bvalues(rng, g) for g in gens] for _ in range(rng.randint(1, 4))]
    c = {'kind': rng.choice(['bin', 'gray']), 'gens': gens, 'rows': rows, 'bad': None, 'rand': rmode(rng)}
    r = rng.random()
    if r < .15:
        i, j = rng.randrange(len(rows)), rng.randrange(K)
        g = gens[j]
        d = rng.choice([spacing(g) / 4, spacing(g), 1e-3 * g[2], 5 * (g[1] - g[0])])
        rows[i][j] = g[1] + d if rng.random() < .5 else g[0] - d
        c['bad'] = 'range'
    elif r < .25:
        i = rng.randrange(len(rows))
        if rng.random() < .5:
            rows[i].append(rng.choice([gens[-1][0], gens[0][0]]))
        else:
            rows[i].pop()
        c['bad'] = 'length'
    c['ints'] = [rng.choice([0, 1, 2, 3, rng.randrange(1 << rng.randint(1, 12)), rng.randrange(1 << rng.randint(1, 80)), (1 << rng.randint(1, 70)) - 1, 1 << rng.randint(1, 70)]) for _ in range(4)]
    return c


def check(case):
    import baumeva.ga as ga
    kind = case['kind']
    cls = {'bin': ga.BinaryPopulation, 'gray': ga.BinaryGrayPopulation}[kind]
    gens = tuple(tuple(g) for g in case['gens'])
    rows = case['rows']
    keep = snap(rows)
    with Script(*case['rand']):
        pop = cls()
        try:
            pop.set_params(num_individ=len(rows) + 1, gens=gens, input_population=rows)
            pop.fill()
        except Exception:
            if case['bad']:
                return
            raise
    need(not case['bad'], 'an individual of the wrong %s was accepted: %s', case['bad'], rows)
    need(rows == keep, "the user's values changed")
    for d, r in zip(pop, keep):
        need(len(d['genotype']) == sum(width(*g) for g in gens), 'genotype has %d bits', len(d['genotype']))
        for g, v, k, ph in zip(gens, r, indices(kind, gens, d['genotype']), d['phenotype']):
            tol = spacing(g) / 2 + 1e-9 * max(1, abs(g[0]), abs(g[1]))
            need(abs(g[0] + k * spacing(g) - v) <= tol, 'value %r of gene %s encoded as index %d = %r', v, g, k, g[0] + k * spacing(g))
            need(abs(ph - v) <= tol, 'value %r of gene %s comes back as %r', v, g, ph)
    G = ga.BinaryGrayPopulation
    for v in case['ints']:
        c = G.get_gray_value(v)
        need(type(c) is int and c >= 0 and G.get_index_from_gray(c) == v, 'Gray code %r of %d decodes to %r', c, v, G.get_index_from_gray(c))
        need(G.get_gray_value(G.get_index_from_gray(v)) == v, 'Gray value %d is not reached', v)
        need(bin(c ^ G.get_gray_value(v + 1)).count('1') == 1, 'Gray codes of %d and %d differ in more or fewer than one bit', v, v + 1)
