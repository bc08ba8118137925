from .common import *
from .c04 import pools
from pyvc import bits
from baumeva.ga import *


def rows(h, M, L, sort=Gene, name='row'):
    """the user's individuals: M lists"""
    f = h.fam(name, 'list', 1)
    f.range = And(f.xs[0] >= 0, f.xs[0] < M)
    G = h.fun(name + '.v', INT, INT, sort)
    x = fresh_int('re')
    h.cell(f, '@', Seq('list', L(f.xs[0]) if callable(L) else L, x, Scal(G(f.xs[0], x))))
    outer = h.list(name + 's', M, lambda i: Ref(f, (i,)))
    return outer, f, G


def common(h, pop, n, keys, fresh_fams):
    i, i2 = h.int('i'), h.int('i2')
    h.check(h.len(pop) == n, 'exactly the requested number of individuals')

    def fields():
        c = h.item(pop, i)
        out = []
        for k in keys:
            v = h.get(c, k)
            if k in ('score', 'obj_score'):
                out.append((k + ' is None', h.e.eq(h.st, v, NONE)))
            elif k == 'feasible':
                out.append(('marked feasible', h.e.truth(h.st, v)))
            elif k == 'idx_individ':
                out.append(('numbered in order', h.e.eq(h.st, v, Scal(i))))
        own = [c] + [h.get(c, k) for k in ('genotype', 'phenotype') if k in keys]
        alts = [gw for v in own for gw in (v.alts if isinstance(v, Union) else [(T, v)])]
        out.append(('own storage', And(*[Implies(g, z3.BoolVal(isinstance(w, Ref) and not w.fam.pre)) for g, w in alts])))
        return out
    h.check_scoped([i >= 0, i < n], fields, 'individual')

    def sep():
        c, d = h.item(pop, i), h.item(pop, i2)
        return [('distinct individuals', Not(h.e.identical(h.st, c, d))),
                ('distinct gene lists', Not(h.e.identical(h.st, h.get(c, 'genotype'), h.get(d, 'genotype'))))]
    h.check_scoped([i >= 0, i < n, i2 >= 0, i2 < n, i != i2], sep, 'storage')


def cat(with_input):
    def run():
        h = H('CatPopulation.fill %s user individuals' % ('with' if with_input else 'without'))
        e = h.e
        n, K, M = h.int('n'), h.int('K'), h.int('M')
        h.assume(And(n >= 0, K >= 0, M >= 0))
        gens, pf, inside, isl, m, abc, V = pools(h, K)
        outer, rf, RG = rows(h, M, K)
        pop = h.call(CatPopulation)
        pre = h.st.copy()
        h.method(pop, 'set_params', Scal(n), gens, outer if with_input else NONE)
        too_many(h, M, n, with_input)
        h.method(pop, 'fill')
        common(h, pop, n, CAT_KEYS, None)
        i, j = h.int('i'), h.int('j')
        m0 = M if with_input else num(0)

        def given():
            g = h.get(h.item(pop, i), 'genotype')
            return [('length', h.len(g) == K), ('value', e.eq(h.st, h.item(g, j), Scal(RG(i, j))))]
        h.check_scoped([i >= 0, i < m0, j >= 0, j < K], given, "the user's individual in its place")

        def made():
            g = h.get(h.item(pop, i), 'genotype')
            return [('length', h.len(g) == K), ('in the pool', inside(j, e.as_gene(h.st, h.item(g, j))))]
        h.check_scoped([i >= m0, i < n, j >= 0, j < K], made, 'generated individual')
        h.unchanged([pf, rf, outer.fam], pre, 'frame')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'cat%d' % with_input
    return run


def too_many(h, M, n, with_input):
    """set_params must raise exactly if there are more user individuals than requested"""
    for s, exc, where in h.e.sinks[0]:
        h.e.obligation(s, And(z3.BoolVal(with_input), M > n), 'rejected only if more individuals than requested are given')
    h.e.sinks[0] = []
    if with_input:
        h.check(M <= n, 'more individuals than requested are rejected')


def order(with_input):
    def run():
        h = H('OrderCatPopulation.fill %s user individuals' % ('with' if with_input else 'without'))
        e = h.e
        n, M, a, b, k = (h.int(x) for x in ('n', 'M', 'a', 'b', 'k'))
        h.assume(And(n >= 0, M >= 0, k >= 0, k <= b - a + 1))
        gens = SeqC('tuple', [Scal(a), Scal(b), Scal(k)])
        outer, rf, RG = rows(h, M, k, INT)
        pop = h.call(OrderCatPopulation)
        pre = h.st.copy()
        h.method(pop, 'set_params', Scal(n), gens, outer if with_input else NONE)
        too_many(h, M, n, with_input)
        h.method(pop, 'fill')
        common(h, pop, n, CAT_KEYS, None)
        i, j, j2 = h.int('i'), h.int('j'), h.int('j2')
        m0 = M if with_input else num(0)

        def given():
            g = h.get(h.item(pop, i), 'genotype')
            return [('length', h.len(g) == k), ('value', e.eq(h.st, h.item(g, j), Scal(RG(i, j))))]
        h.check_scoped([i >= 0, i < m0, j >= 0, j < k], given, "the user's individual in its place")

        def made():
            g = h.get(h.item(pop, i), 'genotype')
            v = h.item(g, j).e
            return [('length', h.len(g) == k), ('in the range', And(v >= a, v <= b))]
        h.check_scoped([i >= m0, i < n, j >= 0, j < k], made, 'generated ordering')

        def dist():
            g = h.get(h.item(pop, i), 'genotype')
            return Not(e.eq(h.st, h.item(g, j), h.item(g, j2)))
        h.check_scoped([i >= m0, i < n, j >= 0, j < j2, j2 < k], dist, 'generated ordering has no item twice')
        h.unchanged([rf, outer.fam], pre, 'frame')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'order%d' % with_input
    return run


def binary(cls, with_input, whole=True):
    def run():
        from .binary import Genes
        h = H('%s.fill %s user individuals%s' % (cls.__name__, 'with' if with_input else 'without', '' if whole else ' (one gene, any step)'))
        e = h.e
        n, K, M = h.int('n'), h.int('K') if whole else num(1), h.int('M')
        h.assume(And(n >= (0 if whole else 1), K >= 0, M >= 0))
        g = Genes(h, K, whole)
        outer, rf, X = rows(h, M, K, REAL)
        h.forall_assume(lambda i, j: (T, And(X(i, j) >= g.lo(j), X(i, j) <= g.hi(j)), [X(i, j)]), 2)
        pop = h.call(cls)
        pre = h.st.copy()
        h.method(pop, 'set_params', Scal(n), g.gens, outer if with_input else NONE)
        too_many(h, M, n, with_input)
        h.method(pop, 'fill')
        g.observe(pop)
        common(h, pop, n, BIN_KEYS, None)
        i, j = h.int('i'), h.int('j')

        def made():
            q = h.get(h.item(pop, i), 'genotype')
            v = e.as_gene(h.st, h.item(q, j))
            return [('length', h.len(q) == g.off(K)), ('a bit', Or(v == e.sc('0'), v == e.sc('1')))]
        h.check_scoped([i >= 0, i < n, j >= 0, j < g.off(K)], made, 'bit string')
        if with_input:
            # the user's individual is the one encoded at its place (C08 says what the code means)
            inside = And(i >= 0, i < M, j >= 0, j < K)
            if not whole:
                j = num(0)
            for c, jj in g.recall(inside, (i, j)):
                g.nearest(bits.ginv(c) if cls is BinaryGrayPopulation else c, X(i, jj) - g.lo(jj), jj)

            def given():
                v = e.arith(h.item(h.get(h.item(pop, i), 'phenotype'), j))
                d = g.spacing(j)
                return And(2 * (v - X(i, j)) <= d, 2 * (X(i, j) - v) <= d)
            h.check_scoped([inside], given, "the user's individual in its place")
        h.unchanged([rf, outer.fam], pre, 'frame')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'bin%s%d%d' % (cls.__name__, with_input, whole)
    return run


CONTRACTS = [cat(True), cat(False), order(True), order(False)] + [binary(c, w) for c in (BinaryPopulation, BinaryGrayPopulation) for w in (True, False)] + \
    [binary(c, True, False) for c in (BinaryPopulation, BinaryGrayPopulation)]
