from .binary import *
from .c06 import rows


def trip(cls, whole):
    def run():
        h = H("%s: the user's values survive coding%s" % (cls.__name__, '' if whole else ' (one gene, any step)'))
        e = h.e
        K, M, n = h.int('K') if whole else num(1), h.int('M'), h.int('n')
        h.assume(And(K >= 0, M >= 0, M <= n, n >= (0 if whole else 1)))
        g = Genes(h, K, whole)
        outer, rf, X = rows(h, M, K, REAL)
        h.forall_assume(lambda i, j: (T, And(X(i, j) >= g.lo(j), X(i, j) <= g.hi(j)), [X(i, j)]), 2)
        pop = h.call(cls)
        pre = h.st.copy()
        h.method(pop, 'set_params', Scal(n), g.gens, outer)
        h.method(pop, 'fill')
        g.observe(pop)
        i, j = h.int('i'), h.int('j') if whole else num(0)
        inside = And(i >= 0, i < M, j >= 0, j < K)
        index = []
        for c, jj in g.recall(inside, (i, j)):
            index.append(bits.ginv(c) if cls is BinaryGrayPopulation else c)
            g.nearest(index[-1], X(i, jj) - g.lo(jj), jj)

        def value():
            ph = h.get(h.item(pop, i), 'phenotype')
            v = e.arith(h.item(ph, j))
            d = g.spacing(j)
            g.steps(v, index, j)
            return [('one value per gene', h.len(ph) == K),
                    ('comes back within half a spacing', And(2 * (v - X(i, j)) <= d, 2 * (X(i, j) - v) <= d))]
        h.check_scoped([inside], value, "the user's value")
        h.unchanged([rf, outer.fam], pre, "the user's lists")
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'trip%s%d' % (cls.__name__, whole)
    return run


def reject(cls):
    def run():
        h = H('%s: values outside the range and wrong lengths are rejected' % cls.__name__)
        e = h.e
        K, M, n = h.int('K'), h.int('M'), h.int('n')
        h.assume(And(K >= 0, M >= 0, M <= n))
        g = Genes(h, K)
        L = h.fun('L', INT, INT)
        h.forall_assume(lambda i: (T, L(i) >= 0, [L(i)]))
        outer, rf, X = rows(h, M, L, REAL)
        pop = h.call(cls)
        h.method(pop, 'set_params', Scal(n), g.gens, outer)
        h.method(pop, 'fill')
        i, j = h.int('i'), h.int('j')
        h.check_scoped([i >= 0, i < M], lambda: [('length', L(i) == K)], 'accepted individuals have a value per gene')
        h.check_scoped([i >= 0, i < M, j >= 0, j < K], lambda: [('range', And(X(i, j) >= g.lo(j), X(i, j) <= g.hi(j)))], 'accepted values are within the range')
        h.vacuity()
        return h
    run.cname = 'reject%s' % cls.__name__
    return run


def maps():
    h = H('Gray code is a bijection and neighbours differ in one bit')
    e = h.e
    v = h.int('v')
    h.assume(v >= 0)
    gray_hints(e)
    bits.gray_axioms(e)
    enc = lambda x: e.arith(h.call(BinaryGrayPopulation.get_gray_value, Scal(x)))
    dec = lambda x: e.arith(h.call(BinaryGrayPopulation.get_index_from_gray, Scal(x)))
    c = enc(v)
    h.check(c >= 0, 'the code is a number >= 0')
    h.check(dec(c) == v, 'decoding inverts encoding')
    d = dec(v)
    h.check(d >= 0, 'the index is a number >= 0')
    h.check(enc(d) == v, 'encoding inverts decoding')
    bits.adjacent(e, v)
    nb = enc(v + 1)
    h.check(bits.xor(c, nb) == e.pow2(bits.tz(v)), 'codes of neighbours differ in exactly one bit')
    h.no_raise()
    h.vacuity()
    return h


maps.cname = 'maps'
BOTH = (BinaryPopulation, BinaryGrayPopulation)
CONTRACTS = [trip(c, True) for c in BOTH] + [trip(c, False) for c in BOTH] + [reject(c) for c in BOTH] + [maps]
