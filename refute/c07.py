from .lib import *
from .c06 import bgens, width, indices, spacing


def gen(rng, n):
    K = size(rng, 1, 4, 12)
    whole = rng.random() < .7
    gens = bgens(rng, K)
    if not whole:
        for g in gens:
            r = rng.random()
            if r < .5:
                g[0] = rng.choice([0.1, -1.7, 0, 2])
                g[1] = g[0] + rng.choice([0.3, 1, 2.5, 10.01, 100])
                g[2] = (g[1] - g[0]) * rng.choice([1, 0.5, 0.3, 0.1, 0.07, 0.013])
                if g[2] > g[1] - g[0]:
                    g[2] = g[1] - g[0]
    return {'kind': rng.choice(['bin', 'gray']), 'gens': gens, 'whole': whole, 'seed': rng.randrange(1 << 30), 'rows': rng.randint(1, 4),
            'modes': [rng.choice(['rand', 'zero', 'one', 'top']) for _ in range(4)], 'own': rng.random() < .5}


def bits_of(cls, g):
    """bits used by a gene, seen from outside"""
    with Script(1):
        p = cls()
        p.set_params(num_individ=1, gens=(g,))
        p.fill()
    return len(p[0]['genotype'])


def check(case):
    import baumeva.ga as ga
    cls = {'bin': ga.BinaryPopulation, 'gray': ga.BinaryGrayPopulation}[case['kind']]
    gens = tuple(tuple(g) for g in case['gens'])
    W = [bits_of(cls, g) for g in gens]
    if case['whole']:
        for g, w in zip(gens, W):
            need(w == width(*g), 'gene %s uses %d bits, %d are the fewest that give %s intervals', g, w, width(*g), (g[1] - g[0]) / g[2])
            need((g[1] - g[0]) / (2 ** w - 1) <= g[2] * (1 + 1e-9), 'spacing of %s exceeds the step', g)
    rng = random.Random(case['seed'])
    with Script(case['seed']):
        pop = cls()
        pop.set_params(num_individ=case['rows'], gens=gens)
        pop.fill()
    need(all(len(d['genotype']) == sum(W) for d in pop), 'genotype length is not the sum of the genes\' bits')
    want = []
    for r, d in enumerate(pop):
        if case['own']:
            b = []
            for w in W:
                m = case['modes'][(r + len(b)) % 4]
                if m == 'zero':
                    b += ['0'] * w
                elif m == 'one':
                    b += ['1'] * w
                elif m == 'top':
                    b += (['1'] + ['0'] * (w - 1)) if w else []
                else:
                    b += [rng.choice('01') for _ in range(w)]
            d['genotype'] = b
            d['phenotype'] = None
    before = [list(d['genotype']) for d in pop]
    pop.get_phenotype()
    need([d['genotype'] for d in pop] == before, 'decoding changed the bits')
    for d in pop:
        ph = d['phenotype']
        need(len(ph) == len(gens), '%d values for %d genes', len(ph), len(gens))
        p = 0
        for g, w, v in zip(gens, W, ph):
            b = d['genotype'][p:p + w]
            p += w
            k, acc = 0, 0
            for x in b:
                acc = acc ^ int(x) if case['kind'] == 'gray' else int(x)
                k = 2 * k + acc
            exp = g[0] + k * ((g[1] - g[0]) / (2 ** w - 1))
            tol = 1e-9 * max(1, abs(g[0]), abs(g[1]))
            need(abs(v - exp) <= tol, 'bits %s of gene %s decode to %r, expected %r', ''.join(b), g, v, exp)
            need(g[0] - tol <= v <= g[1] + tol, 'value %r outside %s', v, g)
        need(pop.binary_individ_to_float(list(d['genotype'])) == ph, 'decoding the same bits again gives another value')
