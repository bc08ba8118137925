from .lib import *
from .c03 import run


def gen(rng, n):
    L = size(rng, 3, 10)
    pool = [list(range(L)), list(range(1, L + 1)), ['v%d' % i for i in range(L)], list(range(-L, 0))][rng.randrange(4)]
    same = rng.random() < .6
    P = rng.randint(0, 4) if rng.random() < .9 else rng.randint(5, 25)

    def g():
        if same:
            return rng.sample(pool, L)
        big = pool + ['x%d' % i for i in range(L)]
        return rng.sample(big, L)
    return {'pop': rng.choice(['OrderCatPopulation', 'CatPopulation']), 'members': [g() for _ in range(rng.randint(1, 3))],
            'parents': [g() for _ in range(2 * P)], 'rand': rmode(rng), 'extra': ['rank'] if rng.random() < .3 else [],
            'both': rng.random() < .25}


def opkey(case):
    return 'order'


def check(case):
    ch = run(case, 'OrderCrossover')
    for i, c in ch:
        a, b = case['parents'][2 * i], case['parents'][2 * i + 1]
        g = c['genotype']
        need(len(g) == len(a), 'child has %d items instead of %d', len(g), len(a))
        need(len(set(g)) == len(g), 'child %r contains an item twice', g)
        need(set(g) <= set(a) | set(b), 'child %r has an item of neither parent', g)
        if set(a) == set(b):
            need(set(g) == set(a), 'child %r is not a permutation of its parents', g)
