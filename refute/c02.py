from .lib import *
from .c03 import rows

OPS = ['SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation']


def gen(rng, n):
    L = size(rng, 3, 10)
    kind = rng.randrange(3)

    def g():
        pool = [list(range(L)), ['v%d' % i for i in range(L)], [i * 3 - 5 for i in range(L)]][kind]
        return rng.sample(pool, L)
    return {'op': rng.choice(OPS), 'level': rng.choice([1.0, 1.0, 'strong', 0.5, 'normal', 'weak', 0.0]),
            'children': [g() for _ in range(rng.randint(0, 6))], 'members': [g() for _ in range(2)], 'parents': [g() for _ in range(2)],
            'rand': rmode(rng), 'times': rng.randint(1, 3)}


def setup(case, pop='OrderCatPopulation', **attrs):
    import baumeva.ga as ga
    pc = getattr(ga, pop)
    d = ga.GaData(num_generations=3)
    d.population = make_pop(pc, rows(pop, case['members']), num_individ=2, **attrs)
    d.parents = make_pop(pc, rows(pop, case['parents'], base=20))
    kids = rows(pop, case['children'], base=40)
    for i, k in enumerate(kids):
        if i % 2:
            k.update(score=None, obj_score=None)
    d.children = make_pop(pc, kids)
    return d


def frame(d, case, call):
    """call() may only change the children's genes"""
    before = [snap(list(x)) for x in (d.population, d.parents, d.children)]
    att = snap({k: v for k, v in vars(d.population).items()})
    objs = (d.population, d.parents, d.children)
    kid = [id(c) for c in d.children]
    old = ids(d.population) | ids(d.parents)
    with Script(*case['rand']):
        call()
    need((d.population, d.parents, d.children) == objs and all(x is y for x, y in zip((d.population, d.parents, d.children), objs)), 'a population was replaced')
    need(list(d.population) == before[0], 'current population changed')
    need(list(d.parents) == before[1], 'parents changed')
    need(vars(d.population) == att, 'population attributes changed: %s', vars(d.population))
    need([id(c) for c in d.children] == kid, 'children replaced, lost or added')
    for c, o in zip(d.children, before[2]):
        need({k: v for k, v in c.items() if k != 'genotype'} == {k: v for k, v in o.items() if k != 'genotype'}, 'a child field other than the genes changed: %s -> %s', o, c)
        need(isinstance(c['genotype'], list) and id(c['genotype']) not in old, 'child shares genes with another individual')
    need(len({id(c['genotype']) for c in d.children}) == len(kid), 'children share genes')
    return before[2]


def opkey(case):
    return case['op'], case['level']


def check(case):
    import baumeva.ga as ga
    d = setup(case)
    op = operator(opkey(case), lambda: getattr(ga, case['op'])(case['level']))

    def call():
        for _ in range(case['times']):
            op.execute(d)
    old = frame(d, case, call)
    for c, o in zip(d.children, old):
        a, b = o['genotype'], c['genotype']
        need(len(a) == len(b) and sorted(map(str, a)) == sorted(map(str, b)) and set(a) == set(b), '%r became %r', a, b)
