from .common import *
from .c03 import cross_env, child_common, two
from baumeva.ga import *


def distinct_parents(h, par, P, L):
    """every parent is a duplicate-free ordering"""
    pinv = z3.Function(par.name + '.inv', INT, Gene, INT)
    h.forall_assume(lambda i, j: (And(i >= 0, i < 2 * P, j >= 0, j < L), pinv(i, par.G(i, j)) == j, [par.G(i, j)]), 2)


def contract(popcls, keys, again, m=1):
    def run():
        h = H('OrderCrossover.execute on %s%s%s' % (popcls.__name__, ', used before' if again else '', ', both children kept' if m == 2 else ''))
        ga, mem, par, N, P, L, pop, pars = cross_env(h, popcls, keys, 3)
        distinct_parents(h, par, P, L)
        op = h.call(OrderCrossover)
        if m == 2:
            two(h, op, P)
        if again:
            g0, _, p0, _, P0, L0, _, _ = cross_env(h, popcls, keys, 3, 'earlier ')
            distinct_parents(h, p0, P0, L0)
            h.earlier(op, 'execute', g0)
        pre = h.st.copy()
        h.method(op, 'execute', ga)

        def each(ch, i, j):
            j2 = h.int('j2')
            p = i if m == 1 else h.int('pair')
            rng = [i >= 0, i < m * P] + ([] if m == 1 else [i >= 2 * p, i <= 2 * p + 1])

            def gene():
                g = h.get(h.item(ch, i), 'genotype')
                v = h.item(g, j)
                e = h.e
                a = e.exists(h.st, L, lambda s, t: e.eq(s, v, Scal(par.G(2 * p, t))), 'from1')
                b = e.exists(h.st, L, lambda s, t: e.eq(s, v, Scal(par.G(2 * p + 1, t))), 'from2')
                return Or(a, b)
            h.check_scoped(rng + [j >= 0, j < L], gene, 'every item comes from one of the two parents')

            def dist():
                g = h.get(h.item(ch, i), 'genotype')
                return Not(h.e.eq(h.st, h.item(g, j), h.item(g, j2)))
            h.check_scoped(rng + [j >= 0, j < j2, j2 < L], dist, 'no item occurs twice')
        child_common(h, ga, mem, par, P, L, pop, pars, pre, keys, each, m)
        return h
    run.cname = '%s-%s-%s' % (popcls.__name__, again, m)
    return run


CONTRACTS = [contract(c, CAT_KEYS, a) for c in (OrderCatPopulation, CatPopulation) for a in (False, True)] + [contract(OrderCatPopulation, CAT_KEYS, False, 2)][:hasattr(OrderCrossover(), 'num_offsprings')]
