from .lib import *
from .c09 import build, pairs_of, scores


def ranks(s):
    """average rank of every score, ascending"""
    return [sum(1 for x in s if x < v) + (1 + sum(1 for x in s if x == v)) / 2 for v in s]


def weights(rng, N):
    r = rng.random()
    if r < .25:
        return [1.0] * N
    if r < .5:
        return [float(rng.choice([1, 2, 4, 8])) for _ in range(N)]
    if r < .7:
        return [rng.random() + .01 for _ in range(N)]
    return [float(4 ** rng.randint(-2, 2)) for _ in range(N)]


def units(rng, wl, n):
    """random numbers aimed at the intervals of the given weight lists"""
    out = []
    for _ in range(n):
        w = rng.choice(wl)
        t = sum(w)
        i = rng.randrange(len(w))
        lo, hi = sum(w[:i]) / t, sum(w[:i + 1]) / t
        r = rng.random()
        x = lo + (hi - lo) * (.5 if r < .3 else 1e-3 if r < .6 else 1 - 1e-3 if r < .9 else rng.random())
        if r > .97:
            x = 0.0
        out.append(min(max(x, 0.0), 0.9999))
    return out


def gen(rng, n):
    kind = rng.choice(['bal', 'rank'])
    num = size(rng, 2, 7, 40)
    N = num + rng.choice([0, 1])
    sc = weights(rng, N) if kind == 'bal' else sorted(scores(rng, N))
    if kind == 'rank' and rng.random() < .3:
        sc = sorted(rng.choice([-2.0, -1.0, 0.0, 0.0, 3.0]) for _ in range(N))
    w = sc if kind == 'bal' else ranks(sc)
    cp = rng.choice([0.95, 1.0, 0.5])
    return {'kind': kind, 'num': num, 'scores': [sc], 'cp': cp, 'pop': rng.choice(['BinaryPopulation', 'CatPopulation']), 'rand': [rng.randrange(1 << 30), 'plain'],
            'unit': units(rng, [w], 3 * int(cp * num)), 'extra': ['rank'] if rng.random() < .3 else [], 'dup': rng.random() < .2, 'times': rng.choice([1, 1, 2])}


def locate(w, r):
    """members whose share interval contains r (two when r is within rounding of a boundary)"""
    t, c, out = sum(w), 0.0, []
    for i, x in enumerate(w):
        lo, hi = c / t, (c + x) / t
        if lo - 1e-9 <= r < hi + 1e-9 and not (r < lo and lo == 0):
            out.append(i)
        c += x
    return out


def judge(out, log, w, what, start=frozenset([0])):
    """the members chosen for the draws in log are out, in order; second parents skip draws that give the first again.
    start: possible numbers of draws already used (draws on a boundary leave a choice); returns those after this part"""
    cur = set(start)
    for k, i in enumerate(out):
        nxt, seen = set(), []
        for p in cur:
            while p < len(log):
                c = locate(w, log[p])
                p += 1
                seen.append((log[p - 1], c))
                if i in c:
                    nxt.add(p)
                if k % 2 == 0 or out[k - 1] not in c:
                    break
        need(nxt, '%s: parent %d is member %d, but the random numbers and the members owning their share interval are %s (weights %s)', what, k, i, seen[:4], w)
        cur = nxt
    return cur


def opkey(case):
    return case['kind']


def check(case):
    import baumeva.ga as ga
    sc = case['scores'][0]
    op = operator(case['kind'], lambda: ga.BalancedSelection() if case['kind'] == 'bal' else ga.RankedSelection())
    w = sc if case['kind'] == 'bal' else ranks(sc)
    data = build(case)
    data.population.is_sorted = case['kind'] == 'rank'
    before = snap(list(data.population))
    for t in range(case['times']):
        with Script(case['rand'][0] + t, 'plain', case['unit']) as s:
            op.execute(data)
        out = pairs_of(data, before, ('rank',))
        n = int(case['cp'] * case['num'])
        need(len(out) == 2 * n, '%d parents, expected %d', len(out), 2 * n)
        for p in range(0, len(out), 2):
            need(out[p] != out[p + 1], 'pair %d is the member %d twice', p // 2, out[p])
        judge(out, s.log, w, 'selection')
