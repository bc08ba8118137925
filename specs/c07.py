from .binary import *


def decode(cls, whole):
    def run():
        h = H('%s: decoding any bit strings%s' % (cls.__name__, '' if whole else ' (one gene, any step)'))
        e = h.e
        K, n = h.int('K') if whole else num(1), h.int('n')
        h.assume(And(K >= 0, n >= 0))
        g = Genes(h, K, whole)
        pop = h.call(cls)
        h.method(pop, 'set_params', Scal(num(0 if whole else 1)), g.gens, NONE)
        h.method(pop, 'fill')
        g.observe(pop)
        m = members(h, 'ind', n, g.off(K), ('genotype', 'score', 'obj_score', 'feasible', 'idx_individ'))
        h.cell(m, 'phenotype', NONE)
        h.forall_assume(lambda i, x: (T, Or(m.G(i, x) == e.sc('0'), m.G(i, x) == e.sc('1')), [m.G(i, x)]), 2)
        h.st.heap[(pop.fam.id, '@')] = Cell((), h.seq('list', n, lambda x: Ref(m, (x,))))
        pre = h.st.copy()
        h.method(pop, 'get_phenotype')
        i, j = h.int('i'), h.int('j') if whole else num(0)
        inside = And(i >= 0, i < n, j >= 0, j < K)
        V = g.word('V', lambda a, b, x: m.G(a, g.off(b) + x))
        g.read(V, inside, (i, j))
        idx = V(i, j, g.NB(j))
        if cls is BinaryGrayPopulation:
            bits.gray_axioms(e)
            idx = bits.ginv(idx)

        def value():
            ph = h.get(h.item(pop, i), 'phenotype')
            v = e.arith(h.item(ph, j))
            t = e.times(z3.ToReal(idx), g.spacing(j))
            return [('one value per gene', h.len(ph) == K),
                    ('value of the gene is low + index * spacing', v == g.lo(j) + t),
                    ('value is within the range', And(v >= g.lo(j), v <= g.hi(j))),
                    ('index 0 is low', Implies(idx == 0, v == g.lo(j))),
                    ('the last index is high', Implies(idx == g.points(j), v == g.hi(j)))]
        h.check_scoped([inside], value, 'decoding')
        h.unchanged([m.gf], pre, 'bit strings')
        h.check_scoped([i >= 0, i < n], lambda: e.identical(h.st, h.get(h.item(pop, i), 'genotype'), Ref(m.gf, (i,))), 'genotype still the same list')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'decode%s%d' % (cls.__name__, whole)
    return run


def count(cls):
    def run():
        h = H('%s: bits of an individual' % cls.__name__)
        K = h.int('K')
        h.assume(K >= 0)
        g = Genes(h, K)
        pop = h.call(cls)
        h.method(pop, 'set_params', Scal(num(1)), g.gens, NONE)
        h.method(pop, 'fill')
        g.observe(pop)
        h.check(h.len(h.get(h.item(pop, num(0)), 'genotype')) == g.off(K), 'an individual has the bits of all genes')
        h.no_raise()
        h.vacuity()
        return h
    run.cname = 'count%s' % cls.__name__
    return run


def spacing():
    """pure arithmetic on what the other contracts establish: range = q * step and 2**NB - 1 >= q give spacing <= step"""
    h = H('spacing is at most the step')
    R, q, s, N, d = z3.Reals('R q s N d')
    h.assume(And(R == q * s, s > 0, q >= 1, N >= q, d * N == R))
    h.check(d <= s, 'spacing is at most the step')
    h.vacuity()
    return h


spacing.cname = 'spacing'
BOTH = (BinaryPopulation, BinaryGrayPopulation)
CONTRACTS = [decode(c, True) for c in BOTH] + [decode(c, False) for c in BOTH] + [count(c) for c in BOTH] + [spacing]
