from .lib import *
from .c04 import pools, values, decl


def width(lo, hi, step):
    n = 0
    while 2 ** n - 1 < (hi - lo) / step:
        n += 1
    return n


def bgens(rng, K, whole=True):
    out = []
    for _ in range(K):
        step = rng.choice([1, 1, 0.5, 2, 0.25, 4, 3, 0.125])
        lo = rng.choice([0, -5, 3, -0.5, 10, -128]) if rng.random() < .7 else rng.randint(-40, 40) / 4
        r = rng.random()
        m = rng.choice([1, 2, 3, 4, 7, 8, 15, 16]) if r < .5 else rng.randint(1, 40) if r < .9 else rng.randint(41, 3000)
        out.append([lo, lo + m * step, step])
    return out


def bvalues(rng, g):
    lo, hi, step = g
    r = rng.random()
    if r < .15:
        return lo
    if r < .3:
        return hi
    if r < .5:
        return lo + step * rng.randint(0, int((hi - lo) / step))
    if r < .6:
        n = width(*g)
        sp = (hi - lo) / (2 ** n - 1)
        return min(hi, lo + sp * rng.randint(0, 2 ** n - 1))
    return lo + (hi - lo) * rng.random()


def gen(rng, n):
    kind = rng.choice(['cat', 'order', 'bin', 'gray'])
    K = size(rng, 1, 5, 30)
    N = rng.randint(0, 6) if rng.random() < .9 else rng.randint(7, 60)
    M = rng.choice([None, 0, N, N + 1, rng.randint(0, N)])
    c = {'kind': kind, 'n': N, 'rand': rmode(rng)}
    if kind == 'cat':
        c['gens'] = pools(rng, K)
        row = lambda: [rng.choice(values(p)) for p in c['gens']]
    elif kind == 'order':
        a = rng.randint(-3, 6)
        c['gens'] = [a, a + K - 1 + rng.choice([0, 0, 1, 3]), K]
        row = lambda: rng.sample(range(c['gens'][0], c['gens'][1] + 1), K)
    else:
        c['gens'] = bgens(rng, min(K, 6))
        row = lambda: [bvalues(rng, g) for g in c['gens']]
    c['user'] = None if M is None else [row() for _ in range(M)]
    c['rows_as'] = rng.choice(['list', 'tuple'])
    return c


def indices(kind, gens, bits):
    """the index of every gene, decoded independently"""
    out, p = [], 0
    for lo, hi, st in gens:
        w = width(lo, hi, st)
        b = bits[p:p + w]
        p += w
        v = 0
        if kind == 'gray':
            acc = 0
            for x in b:
                acc ^= int(x)
                v = 2 * v + acc
        else:
            for x in b:
                v = 2 * v + int(x)
        out.append(v)
    return out


def spacing(g):
    return (g[1] - g[0]) / (2 ** width(*g) - 1)


def check(case):
    import baumeva.ga as ga
    kind = case['kind']
    cls = {'cat': ga.CatPopulation, 'order': ga.OrderCatPopulation, 'bin': ga.BinaryPopulation, 'gray': ga.BinaryGrayPopulation}[kind]
    gens = decl(case['gens']) if kind == 'cat' else tuple(case['gens']) if kind == 'order' else tuple(tuple(g) for g in case['gens'])
    user = case['user']
    if user is not None:
        user = [list(r) if case['rows_as'] == 'list' else tuple(r) for r in user]
    ukeep, gkeep = snap(user), snap(gens)
    n = case['n']
    with Script(*case['rand']):
        pop = cls()
        bad = user is not None and len(user) > n
        try:
            pop.set_params(num_individ=n, gens=gens, input_population=user)
            if not bad:
                pop.fill()
        except Exception as e:
            if bad:
                return
            raise
        need(not bad, 'more user individuals than requested were accepted')
    need(len(pop) == n, 'asked for %d individuals, got %d', n, len(pop))
    need(user == ukeep and gens == gkeep, "the user's lists changed")
    shared = {id(r) for r in (user or [])}
    if kind == 'cat':
        shared |= {id(g) for g in gens if isinstance(g, list)}
    need(len({id(d) for d in pop}) == n and len({id(d['genotype']) for d in pop}) == n, 'individuals share storage')
    for i, d in enumerate(pop):
        g = d['genotype']
        need(isinstance(g, list) and id(g) not in shared, 'individual %d shares its genes with the caller', i)
        need(d['score'] is None and d['obj_score'] is None, 'individual %d counts as evaluated: %s', i, d)
        need(d['feasible'] is True, 'individual %d not marked feasible', i)
        need(d['idx_individ'] == i, 'individual %d is numbered %r', i, d['idx_individ'])
        mine = user[i] if user is not None and i < len(user) else None
        if kind in ('bin', 'gray'):
            need(len(g) == sum(width(*x) for x in gens) and all(x == '0' or x == '1' for x in g), 'individual %d is no bit string of the required length: %r', i, g)
            if mine is not None:
                for x, k, v in zip(gens, indices(kind, gens, g), mine):
                    need(abs(x[0] + k * spacing(x) - v) <= spacing(x) / 2 + 1e-9 * max(1, abs(x[0]), abs(x[1])), 'user value %r became %r', v, x[0] + k * spacing(x))
        elif mine is not None:
            need(g == list(mine) and all(type(a) is type(b) for a, b in zip(g, mine)), 'user individual %r became %r', mine, g)
        elif kind == 'cat':
            need(len(g) == len(gens), 'individual %d has %d genes', i, len(g))
            for j, v in enumerate(g):
                vs = values(case['gens'][j])
                need(any(v == x and type(v) is type(x) for x in vs), 'gene %d is %r, declared %r', j, v, vs)
        else:
            need(len(g) == gens[2] and len(set(g)) == len(g) and all(type(v) is int and gens[0] <= v <= gens[1] for v in g), 'no ordering of %s: %r', gens, g)
