from .common import *
from baumeva.ga import *


def cross_env(h, popcls, keys, minlen, t=''):
    N, P, L = h.int(t + 'N'), h.int(t + 'P'), h.int(t + 'L')
    h.assume(N >= 1)
    h.assume(P >= 0)
    h.assume(L >= minlen)
    mem = members(h, t + 'member', N, L, keys)
    par = members(h, t + 'parent', 2 * P, L, keys)
    pop = population(h, t + 'population', popcls, N, mem, is_phenotype=Scal(z3.BoolVal('phenotype' in keys)))
    pars = population(h, t + 'parents', popcls, 2 * P, par)
    ga = h.obj(t + 'ga_data', GaData, population=pop, parents=pars, children=NONE)
    return ga, mem, par, N, P, L, pop, pars


def child_common(h, ga, mem, par, P, L, pop, pars, pre, keys, each, m=1):
    ch = h.get(ga, 'children')
    h.check(h.len(ch) == m * P, 'one child per pair of parents' if m == 1 else 'two children per pair of parents')
    pairs, P = P, simp(m * P)
    i, i2 = h.int('i'), h.int('i2')
    j = h.int('j')

    def per_child():
        c = h.item(ch, i)
        out = []
        for k in keys:
            if k == 'genotype':
                continue
            v = h.get(c, k)
            if k == 'feasible':
                out.append(('child marked feasible', h.e.truth(h.st, v)))
            else:
                out.append(('child has no %s yet' % k, z3.BoolVal(True) if v is NONE else h.e.eq(h.st, v, NONE)))
        out.append(('child length', h.len(h.get(c, 'genotype')) == L))
        return out
    h.check_scoped([i >= 0, i < P], per_child, 'child')

    def fresh():
        c, d = h.item(ch, i), h.item(ch, i2)
        g, g2 = h.get(c, 'genotype'), h.get(d, 'genotype')
        out = [('distinct children', Not(h.e.identical(h.st, c, d))), ('distinct gene lists', Not(h.e.identical(h.st, g, g2)))]
        return out
    h.check_scoped([i >= 0, i < P, i2 >= 0, i2 < P, i != i2], fresh, 'child storage')

    def notpre():
        c = h.item(ch, i)
        g = h.get(c, 'genotype')
        out = []
        for v, lb in ((c, 'child'), (g, 'gene list')):
            vs = [w for _, w in v.alts] if isinstance(v, Union) else [v]
            out.append((lb + ' is new', z3.BoolVal(all(isinstance(w, Ref) and not w.fam.pre for w in vs))))
        return out
    h.check_scoped([i >= 0, i < P], notpre, 'child storage')
    each(ch, i, j)
    h.unchanged(fams_of(mem) + fams_of(par) + [pop.fam, pars.fam], pre, 'frame')
    h.no_raise()
    h.vacuity()


def two(h, op, P):
    """the operator set to keep both children: child i belongs to pair i // 2"""
    h.cell(op.fam, 'num_offsprings', Scal(num(2)))


def contract(cls, popcls, keys, minlen, again, m=1):
    def run():
        h = H('%s.execute on %s%s%s' % (cls.__name__, popcls.__name__, ', used before' if again else '', ', both children kept' if m == 2 else ''))
        ga, mem, par, N, P, L, pop, pars = cross_env(h, popcls, keys, minlen)
        op = h.call(cls)
        if m == 2:
            two(h, op, P)
        if again:
            h.earlier(op, 'execute', cross_env(h, popcls, keys, minlen, 'earlier ')[0])
        pre = h.st.copy()
        h.method(op, 'execute', ga)

        def each(ch, i, j):
            def gene():
                g = h.get(h.item(ch, i), 'genotype')
                v = h.item(g, j)
                return Or(h.e.eq(h.st, v, Scal(par.G(2 * p, j))), h.e.eq(h.st, v, Scal(par.G(2 * p + 1, j))))
            p = i if m == 1 else h.int('pair')
            h.check_scoped([i >= 0, i < m * P, j >= 0, j < L] + ([] if m == 1 else [i >= 2 * p, i <= 2 * p + 1]), gene, 'gene from the same position of a parent')
        child_common(h, ga, mem, par, P, L, pop, pars, pre, keys, each, m)
        return h
    run.cname = '%s-%s-%s-%s' % (cls.__name__, popcls.__name__, again, m)
    return run


CONTRACTS = []
for cls, ml in ((OnePointCrossover, 2), (TwoPointCrossover, 3), (UniformCrossover, 1)):
    for pc, keys in ((BinaryPopulation, BIN_KEYS), (CatPopulation, CAT_KEYS)):
        CONTRACTS += [contract(cls, pc, keys, ml, a) for a in (False, True)] + [contract(cls, pc, keys, ml, False, 2)][:hasattr(cls(), 'num_offsprings')]
