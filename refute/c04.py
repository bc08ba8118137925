from .lib import *
from .c02 import setup, frame


def gen(rng, n):
    kind = rng.choice(['bit', 'cat'])
    L = size(rng, 1, 8)
    lv = rng.choice([1.0, 1.0, 0.5, 'strong', 'normal', 'weak', 0.0])
    case = {'kind': kind, 'level': lv, 'rand': rmode(rng), 'times': rng.randint(1, 3)}
    C = rng.randint(0, 5)
    if kind == 'bit':
        g = lambda: [rng.choice('01') for _ in range(L)]
        case['bits'] = L
    else:
        case['gens'] = pools(rng, L)
        g = lambda: [rng.choice(values(p)) for p in case['gens']]
    case.update(children=[g() for _ in range(C)], members=[g() for _ in range(2)], parents=[g() for _ in range(2)])
    return case


def pools(rng, L):
    out = []
    for _ in range(L):
        r = rng.random()
        if r < .15:
            out.append(['list', [rng.choice(['a', 1, 2.5])]])
        elif r < .5:
            out.append(['list', rng.sample(['a', 'b', 'c', 1, 2, 3.5, 'zz', -4, 0, ''], rng.randint(2, 6))])
        elif r < .6:
            a = rng.randint(-5, 5)
            out.append(['range', [a, a + rng.randint(0, 2), 4]])
        else:
            a = rng.randint(-5, 5)
            out.append(['range', [a, a + rng.randint(0, 9), rng.randint(1, 4)]])
    return out


def values(p):
    return list(p[1]) if p[0] == 'list' else list(range(p[1][0], p[1][1] + 1, p[1][2]))


def decl(ps):
    return tuple(list(p[1]) if p[0] == 'list' else tuple(p[1]) for p in ps)


def opkey(case):
    return case['kind'], case['level']


def check(case):
    import baumeva.ga as ga
    if case['kind'] == 'bit':
        d = setup(case, 'BinaryPopulation', idx_bits=[0, case['bits']], is_phenotype=True)
        op = operator(opkey(case), lambda: ga.BinStringMutation(case['level']))
    else:
        d = setup(case, 'CatPopulation', gens=decl(case['gens']))
        op = operator(opkey(case), lambda: ga.CategoricalMutation(case['level']))
    now = [None]

    def call():
        for _ in range(case['times']):
            op.execute(d)
    old = frame(d, case, call)
    for c, o in zip(d.children, old):
        a, b = o['genotype'], c['genotype']
        need(len(a) == len(b), 'number of genes changed: %r -> %r', a, b)
        for j, v in enumerate(b):
            if case['kind'] == 'bit':
                need(v == '0' or v == '1', 'gene %r is not a bit', v)
            else:
                vs = values(case['gens'][j])
                need(any(v == x and type(v) is type(x) for x in vs), 'gene %d is %r, declared %r', j, v, vs)
                need(len(vs) > 1 or v == a[j], 'single-valued gene changed')
